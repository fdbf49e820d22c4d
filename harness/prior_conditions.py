"""Condition functions which prior files can refer to by name."""


def shift(reference_params, first):
    return dict(minimum=reference_params["minimum"], maximum=reference_params["maximum"] + first)


def steeper(reference_params, first):
    return dict(minimum=reference_params["minimum"], maximum=reference_params["maximum"] + first,
                alpha=reference_params["alpha"] + first)
