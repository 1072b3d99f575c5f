def circular_space_setup(*args, **kwargs):
    pass
