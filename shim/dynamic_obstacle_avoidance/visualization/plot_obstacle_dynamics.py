def plot_obstacle_dynamics(*args, **kwargs):
    return None
