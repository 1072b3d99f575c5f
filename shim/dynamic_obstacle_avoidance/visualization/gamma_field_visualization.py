def gamma_field_visualization(*args, **kwargs):
    return None


gamma_field_multihull = gamma_field_visualization
