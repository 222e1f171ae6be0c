"""Imports the system under test once, before cases are forked."""
import logging
import os
import warnings


def boot():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.pop("PYWR_SOLVER", None)
    import numpy, pandas, scipy.optimize, networkx  # noqa
    import pywr
    assert pywr.__file__.startswith("/repo/"), pywr.__file__
    import pywr.core, pywr.model, pywr.nodes, pywr.parameters, pywr.recorders, pywr.domains  # noqa
    import pywr.domains.river, pywr.domains.groundwater  # noqa
    import pywr.parameters.groundwater, pywr.parameters.control_curves  # noqa
    import pywr.recorders.events, pywr.recorders.kde, pywr.recorders.calibration, pywr.recorders.progress  # noqa
    import tables  # noqa
    from . import comps  # noqa
    from . import gen, world  # noqa
