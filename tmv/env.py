"""Prepares the process so that the code of /repo can be imported and every part of it constructed."""
import os
import stat
import sys
import types
import warnings

from . import core


class CodeImportError(Exception):
    pass


def setup(ctx):
    warnings.simplefilter('ignore')
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['MPLCONFIGDIR'] = ctx.scratch
    bin_dir = os.path.join(ctx.scratch, 'bin')
    os.makedirs(bin_dir, exist_ok=True)
    stub = os.path.join(bin_dir, 'pomdp-solve')
    with open(stub, 'w') as f:
        f.write('#!{} -SE\n'.format(sys.executable))
        f.write(open(os.path.join(core.VERIF, 'tmv', 'fake_solver.py')).read())
    os.chmod(stub, stat.S_IRWXU | stat.S_IRGRP | stat.S_IXGRP)
    os.environ['PATH'] = bin_dir + os.pathsep + os.environ.get('PATH', '')
    ctx.solver = stub
    # expjobs is a job scheduler that is not installed; only its Launcher base class is needed
    if 'expjobs' not in sys.modules:
        pkg = types.ModuleType('expjobs')
        helpers = types.ModuleType('expjobs.helpers')

        class Launcher(object):

            def __init__(self, *args, **kwargs):
                self.jobs = {}
                self.exps = {}

        helpers.Launcher = Launcher
        pkg.helpers = helpers
        sys.modules['expjobs'] = pkg
        sys.modules['expjobs.helpers'] = helpers
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    try:
        import task_models.lib.pomdp
        import task_models.lib.pomcp
        import task_models.task
        import task_models.supportive
    except Exception as e:
        raise CodeImportError(core.describe_exc(e))
    import task_models
    where = os.path.realpath(list(task_models.__path__)[0])
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        raise RuntimeError('task_models was loaded from ' + where)
    import logging
    logging.disable(logging.CRITICAL)
