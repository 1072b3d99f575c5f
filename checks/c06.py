"""C06: hierarchies of parents and children stay consistent over any history."""
from lib.gen import st
from lib.pbt import Sub, Violation, discard_unless, require

from nonlinear_avoidance.graph_handler import BasicGraphHandler, GraphElement, GraphHandler

PROPERTY = "C06"
RULE = (
    "Random histories of up to 25 operations on the linked elements and on both "
    "hierarchy containers against a parent-dictionary model; non-trivial: at least two "
    "links were made and one of them was later changed, or a rejected operation followed."
)

IDX = st.integers(0, 9)
N_ELEMENTS = 9


def history(kinds, max_size=35):
    return st.fixed_dictionaries(
        {
            "n": st.integers(2, N_ELEMENTS),
            "ops": st.lists(
                st.tuples(st.sampled_from(kinds), IDX, IDX).map(list),
                min_size=1,
                max_size=max_size,
            ),
            "values": st.sampled_from(["int", "str", "tuple", "same"]),
        }
    )


def is_below(parents, node, ancestor):
    while node is not None:
        if node == ancestor:
            return True
        node = parents[node]
    return False


def make_value(kind, ii):
    if kind == "int":
        return ii
    if kind == "str":
        return f"element-{ii}"
    if kind == "same":
        return "equal"
    return (ii, "x")


def check_elements(case):
    """Linked elements: identity matters, also if the values are equal."""
    n = case["n"]
    elements = [GraphElement(make_value(case["values"], ii)) for ii in range(n)]
    parents = {ii: None for ii in range(n)}
    order = {ii: [] for ii in range(n)}
    changed = links = 0
    for kind, aa, bb in case["ops"]:
        aa, bb = aa % n, bb % n
        if kind in ("add_child", "set_parent"):
            # bb becomes child of aa; no loops and no repeated link
            if is_below(parents, aa, bb) or parents[bb] == aa:
                continue
            links += 1
            if parents[bb] is not None:
                order[parents[bb]].remove(bb)
                changed += 1
            if kind == "add_child":
                elements[aa].add_child(elements[bb])
            else:
                elements[bb].set_parent(elements[aa])
            parents[bb] = aa
            order[aa].append(bb)
        else:
            changed += parents[aa] is not None
            elements[aa].expel()
            if parents[aa] is not None:
                order[parents[aa]].remove(aa)
            for child in order[aa]:
                parents[child] = None
            parents[aa] = None
            order[aa] = []
        for ii, element in enumerate(elements):
            expected = None if parents[ii] is None else elements[parents[ii]]
            require(element.parent is expected, "wrong parent", element=ii, op=kind)
            got = [id(child) for child in element.children]
            require(
                got == [id(elements[jj]) for jj in order[ii]],
                "wrong children",
                element=ii,
                op=kind,
                number=len(got),
                expected=order[ii],
            )
            require(
                element.number_of_children == len(order[ii]), "wrong number of children"
            )
    fresh = GraphElement("fresh")
    require(fresh.parent is None and fresh.children == [], "elements share their children")
    return [] if links >= 2 and changed else ["trivial"]


def check_basic(case):
    """Container of linked elements."""
    kind = "int" if case["values"] == "same" else case["values"]
    handler = BasicGraphHandler()
    require(handler.root is None, "root of an empty container")
    handler.root = make_value(kind, 0)
    root = handler.root
    require(root.value == make_value(kind, 0) and root.parent is None, "root")
    alive = {0: root}
    parents = {0: None}
    count = 1
    deleted = 0
    for op, aa, bb in case["ops"]:
        keys = sorted(alive)
        if op == "add" or len(keys) == 1:
            parent = keys[aa % len(keys)]
            value = make_value(kind, count)
            before = [id(e) for e in alive[parent].children]
            handler.add_element_with_parent(value, alive[parent])
            new = [e for e in alive[parent].children if id(e) not in before]
            require(
                len(new) == 1 and len(alive[parent].children) == len(before) + 1,
                "an added element is not exactly one new child of its parent",
            )
            require(new[0].value == value and new[0].parent is alive[parent], "added element")
            alive[count] = new[0]
            parents[count] = parent
            count += 1
        else:
            node = keys[1:][aa % (len(keys) - 1)]
            element = alive.pop(node)
            handler.delete_element(element)
            deleted += 1
            parents.pop(node)
            for other in parents:
                if parents[other] == node:
                    parents[other] = None
        require(handler.root is root, "root changed")
        for ii, element in alive.items():
            expected = None if parents[ii] is None else alive[parents[ii]]
            require(element.parent is expected, "wrong parent", element=ii, op=op)
            children = sorted(jj for jj in parents if parents[jj] == ii)
            got = sorted(id(e) for e in element.children)
            require(got == sorted(id(alive[jj]) for jj in children), "wrong children", op=op)
    return [] if deleted and count > 3 else ["trivial"]


def check_handler(case):
    """Container of values."""
    kind = case["values"]
    n = case["n"]

    def new_value(ii):
        # With "same", a few values are used by several elements
        return make_value("int", ii % 3) if kind == "same" else make_value(kind, ii)

    if kind == "int":
        handler = GraphHandler(n_nodes=n)
    else:
        handler = GraphHandler(node_values=[new_value(ii) for ii in range(n)])
    values = [new_value(ii) for ii in range(n)]
    parents = {ii: None for ii in range(n)}
    order = {ii: [] for ii in range(n)}
    moved = links = rejected = 0
    for op, aa, bb in case["ops"]:
        # Values which are used several times refer to their first element
        aa, bb = values.index(values[aa % len(values)]), values.index(
            values[bb % len(values)]
        )
        if op == "add":
            value = new_value(len(values))
            handler.add_element_with_parent(value, values[aa])
            new = len(values)
            values.append(value)
            parents[new] = aa
            order[new] = []
            order[aa].append(new)
            links += 1
        elif op == "root":
            value = new_value(len(values))
            handler.set_root(value)
            parents[len(values)] = None
            order[len(values)] = []
            values.append(value)
        elif op == "unknown":
            missing = make_value(kind, 1000)
            calls = [
                lambda: handler.add_element_with_parent(make_value(kind, 999), missing),
                lambda: handler.add_element_with_parent(missing, missing),
                lambda: handler.set_parent_of_element(values[aa], missing),
                lambda: handler.set_parent_of_element(missing, values[aa]),
                lambda: handler.get_parent(missing),
                lambda: handler.get_children(missing),
            ]
            try:
                calls[bb % len(calls)]()
            except ValueError:
                rejected += 1
            else:
                raise Violation(f"unknown value was accepted by call {bb % len(calls)}")
        else:  # set the parent
            if is_below(parents, aa, bb) or parents[bb] == aa:
                continue
            if parents[bb] is not None:
                order[parents[bb]].remove(bb)
                moved += 1
            handler.set_parent_of_element(values[bb], values[aa])
            parents[bb] = aa
            order[aa].append(bb)
            links += 1
        require(handler.n_nodes == len(values), "number of nodes", n=handler.n_nodes)
        for ii, value in enumerate(values):
            if values.index(value) != ii:
                continue
            expected = None if parents[ii] is None else values[parents[ii]]
            require(handler.get_parent(value) == expected, "wrong parent", value=value, op=op)
            require(
                handler.get_children(value) == [values[jj] for jj in order[ii]],
                "wrong children",
                value=value,
                op=op,
                got=handler.get_children(value),
            )
        roots = [ii for ii in range(len(values)) if parents[ii] is None]
        require(list(handler.get_root_indices()) == roots, "root indices")
        require(list(handler.roots) == [values[ii] for ii in roots], "roots")
        # Parents before children, breadth first
        expected = list(roots)
        for ii in expected:
            expected += order[ii]
        for _ in range(2):
            got = list(handler.get_nodes_hirarchy_descending())
            require(
                got == [values[ii] for ii in expected], "hierarchy order", got=got, op=op
            )
    return [] if links >= 2 and (moved or rejected) else ["trivial"]


SUBS = [
    Sub("elements", history(["add_child", "set_parent", "expel"]), check_elements, quick=2000),
    Sub("basic", history(["add", "add", "delete"]), check_basic, quick=1500),
    Sub(
        "handler",
        history(["add", "add", "root", "set", "set", "unknown"]),
        check_handler,
        quick=2000,
    ),
]
