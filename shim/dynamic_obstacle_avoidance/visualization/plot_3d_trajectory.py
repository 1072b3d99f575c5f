def plot_obstacles_and_trajectory_3d(*args, **kwargs):
    return None


plot_obstacles_and_vector_levelz_3d = plot_obstacles_and_trajectory_3d
