import os

import numpy as np


class MotionDataHandler:
    def __init__(self, position, velocity=None, sequence_value=None, attractor=None):
        self.position = np.array(position, dtype=float)
        self.velocity = velocity
        self.sequence_value = sequence_value
        self.attractor = attractor
        self.weight_sequence = 1.0

    @property
    def dimension(self):
        return self.position.shape[1]

    @property
    def n_samples(self):
        return self.position.shape[0]

    num_samples = n_samples

    @property
    def attractor_position(self):
        return self.attractor

    @property
    def X(self):
        return np.hstack(
            (self.position, self.velocity, np.reshape(self.sequence_value, (-1, 1)))
        )

    def get_normalized_data(self):
        data = self.X
        mean = np.mean(data, axis=0)
        var = np.var(data, axis=0)
        var[var == 0] = 1.0
        return (data - mean) / var


class HandwrittingHandler(MotionDataHandler):
    def __init__(self, file_name, directory_name=None, dimension=2):
        import scipy.io

        if directory_name is None:
            directory_name = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "dataset")
        data = scipy.io.loadmat(os.path.join(directory_name, file_name))["data"]
        pos, vel, seq = [], [], []
        attr = np.zeros(dimension)
        for ii in range(data.shape[1]):
            dd = data[0, ii]
            pos.append(dd[:dimension, :].T)
            vel.append(dd[dimension : 2 * dimension, :].T)
            seq.append(np.linspace(0, 1, dd.shape[1]))
            attr = attr + dd[:dimension, -1] / data.shape[1]
        super().__init__(
            position=np.vstack(pos),
            velocity=np.vstack(vel),
            sequence_value=np.hstack(seq),
            attractor=attr,
        )


HandwrittingDataHandler = HandwrittingHandler
