"""C05: histories of operations on a direction tree."""
import math

import numpy as np

from lib.gen import count, nonzero_vec, num, st, vec
from lib.pbt import Discard, Sub, Violation, discard_unless, require
from lib.ref import angle_between, arr, close, unit

from nonlinear_avoidance.vector_rotation import (
    VectorRotationSequence,
    VectorRotationTree,
    VectorRotationXd,
)

PROPERTY = "C05"
RULE = (
    "Random histories of up to 15 operations on a tree of directions (add a node, a "
    "chain, an orientation; change a direction; rejected additions; weighted-mean "
    "queries) against a dictionary model; non-trivial: at least three accepted "
    "additions and one other operation."
)


def _op(dim):
    index = st.integers(0, 30)
    direction = nonzero_vec(dim)
    return st.one_of(
        st.tuples(st.just("add"), index, direction),
        st.tuples(st.just("add"), index, direction),
        st.tuples(st.just("add_scaled"), index, direction),
        st.tuples(st.just("orientation"), index, direction),
        st.tuples(
            st.just("sequence"), index, st.lists(direction, min_size=1, max_size=3)
        ),
        st.tuples(st.just("sequence_free"), index, st.lists(direction, min_size=2, max_size=3)),
        st.tuples(st.just("set"), index, direction),
        st.tuples(st.just("duplicate"), index, direction),
        st.tuples(st.just("zero"), index),
        st.tuples(st.just("orphan"), direction),
        st.tuples(
            st.just("misaligned"),
            index,
            st.lists(direction, min_size=2, max_size=2),
            st.one_of(st.none(), st.integers(0, 3)),
        ),
        st.tuples(st.just("query"), index),
    ).map(list)


@st.composite
def history_case(draw):
    dim = draw(count(2, 3, 5))
    return {
        "root": draw(nonzero_vec(dim)),
        "ops": draw(st.lists(_op(dim), min_size=1, max_size=25)),
    }


class Model:
    def __init__(self, root):
        self.parent = {"root": None}
        self.direction = {"root": unit(root)}

    def nodes(self):
        return list(self.parent)

    def children(self, node):
        return [kk for kk, pp in self.parent.items() if pp == node]

    def descendants(self, node):
        out = []
        for child in self.children(node):
            out += [child] + self.descendants(child)
        return out

    def level(self, node):
        return 0 if self.parent[node] is None else 1 + self.level(self.parent[node])

    def add(self, node, parent, direction):
        self.parent[node] = parent
        self.direction[node] = unit(direction)


def compare(tree, model):
    nodes = model.nodes()
    ascending = list(tree.get_nodes_ascending())
    require(len(ascending) == len(nodes) and set(ascending) == set(nodes), "nodes differ",
            tree=ascending, model=nodes)
    levels = [model.level(node) for node in ascending]
    require(levels == sorted(levels), "nodes are not sorted by level", levels=levels)
    for node in nodes:
        children = list(tree.get_children(node))
        require(
            len(children) == len(set(children)) and set(children) == set(model.children(node)),
            "children",
            node=node,
            tree=children,
        )
        below = list(tree.get_all_childs_children(node))
        require(
            len(below) == len(set(below)) and set(below) == set(model.descendants(node)),
            "nodes below",
            node=node,
            tree=below,
        )
        if model.parent[node] is not None:
            require(tree.get_parent(node) == model.parent[node], "parent", node=node)


def query(tree, model, node):
    """The mean with the full weight on a node is its direction."""
    for nn in model.nodes():
        pp = model.parent[nn]
        if pp is not None:
            theta = angle_between(model.direction[pp], model.direction[nn])
            if theta > math.pi - 0.05 or 1e-6 < theta < 1e-3:
                return
    out = tree.get_weighted_mean(node_list=[node], weights=[1.0])
    require(close(out, model.direction[node], 1e-5), "direction of a node", node=node, out=out)


def rejected(function, what, error=ValueError):
    try:
        function()
    except error:
        return
    raise Violation(f"{what} was accepted")


def check_history(case):
    root = arr(case["root"])
    model = Model(root)
    tree = VectorRotationTree(root_idx="root", root_direction=root)
    require(tree.dimension == len(root), "dimension")
    n_added = 0
    others = 0
    for kk, op in enumerate(case["ops"]):
        nodes = model.nodes()
        new = f"n{kk}"
        if op[0] in ("add", "add_scaled"):
            parent = nodes[op[1] % len(nodes)]
            vector = arr(op[2]) * (3.5 if op[0] == "add_scaled" else 1.0)
            copy = vector.copy()
            tree.add_node(node_id=new, direction=vector, parent_id=parent)
            require(np.array_equal(copy, vector), "input modified")
            model.add(new, parent, vector)
            n_added += 1
        elif op[0] == "orientation":
            parent = nodes[op[1] % len(nodes)]
            start = model.direction[parent]
            theta = angle_between(start, op[2])
            if not 1e-3 < theta < math.pi - 0.05:
                continue
            rotation = VectorRotationXd.from_directions(start, arr(op[2]))
            tree.add_node_orientation(node_id=new, orientation=rotation, parent_id=parent)
            model.add(new, parent, op[2])
            n_added += 1
        elif op[0] in ("sequence", "sequence_free"):
            parent = nodes[op[1] % len(nodes)]
            common = op[0] == "sequence"
            chain = [arr(v) for v in op[2]]
            if common:
                chain = [model.direction[parent]] + chain
            thetas = [angle_between(a, b) for a, b in zip(chain[:-1], chain[1:])]
            if not thetas or max(thetas) > math.pi - 0.05 or min(thetas) < 1e-3:
                continue
            sequence = VectorRotationSequence.create_from_vector_array(np.array(chain).T)
            tree.add_sequence(
                node_id=new, sequence=sequence, parent_id=parent, common_parent=common
            )
            first = 1 if common else 0
            for ii in range(first, len(chain) - 1):
                model.add((new, ii), parent, chain[ii])
                parent = (new, ii)
            model.add(new, parent, chain[-1])
            n_added += 1
        elif op[0] == "set":
            node = nodes[op[1] % len(nodes)]
            vector = unit(op[2])
            tree.set_direction(node, vector)
            model.direction[node] = vector
            others += 1
        elif op[0] == "duplicate":
            node = nodes[op[1] % len(nodes)]
            rejected(
                lambda: tree.add_node(
                    node_id=node, direction=arr(op[2]), parent_id=nodes[0]
                ),
                "a second node of the same name",
            )
            others += 1
        elif op[0] == "zero":
            parent = nodes[op[1] % len(nodes)]
            rejected(
                lambda: tree.add_node(
                    node_id=new, direction=np.zeros(len(root)), parent_id=parent
                ),
                "a zero direction",
            )
            others += 1
        elif op[0] == "orphan":
            rejected(
                lambda: tree.add_node(node_id=new, direction=arr(op[1])),
                "a node without parent",
            )
            others += 1
        elif op[0] == "misaligned":
            parent = nodes[op[1] % len(nodes)]
            chain = [arr(v) for v in op[2]]
            if op[3] is not None:
                # Differs from the direction of the parent along one axis only
                chain[0] = np.copy(model.direction[parent])
                axis = op[3] % len(chain[0])
                chain[0][axis] = -chain[0][axis]
            if angle_between(chain[0], model.direction[parent]) < 1e-2:
                continue
            if angle_between(*chain) > math.pi - 0.05:
                continue
            sequence = VectorRotationSequence.create_from_vector_array(np.array(chain).T)
            rejected(
                lambda: tree.add_sequence(
                    node_id=new, sequence=sequence, parent_id=parent, common_parent=True
                ),
                "a sequence which starts in another direction",
            )
            others += 1
        else:
            query(tree, model, nodes[op[1] % len(nodes)])
            rejected(
                lambda: tree.get_weighted_mean(node_list=[nodes[0]], weights=[0.5, 0.5]),
                "different number of nodes and weights",
            )
            others += 1
        compare(tree, model)
    for node in model.nodes():
        query(tree, model, node)
    labels = [f"added{min(n_added, 6)}"]
    if n_added < 3 or not others:
        labels.append("trivial")
    return labels


def check_depth(case):
    """The depth of the tree is limited; the rejected node leaves no trace."""
    tree = VectorRotationTree(root_idx=0, root_direction=np.array([1.0, 0.0]))
    limit = tree.maximum_level
    for ii in range(1, limit):
        ang = 0.1 * (ii % case["period"])
        tree.add_node(
            node_id=ii, direction=np.array([math.cos(ang), math.sin(ang)]), parent_id=ii - 1
        )
    for _ in range(case["repeat"]):
        rejected(
            lambda: tree.add_node(
                node_id="deep", direction=np.array([0.0, 1.0]), parent_id=limit - 1
            ),
            "a node below the maximum level",
        )
        require(
            list(tree.get_nodes_ascending()) == list(range(limit)), "rejected node left a trace"
        )
        require(list(tree.get_children(limit - 1)) == [], "rejected node is still a child")
    return [f"period{case['period']}"]


SUBS = [
    Sub("history", history_case(), check_history, quick=1200, shards=2),
    Sub(
        "depth",
        st.fixed_dictionaries({"period": st.integers(1, 9), "repeat": st.integers(1, 3)}),
        check_depth,
        quick=15,
        thorough=27,
        thorough_shards=1,
    ),
]
