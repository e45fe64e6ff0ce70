"""The native disassembler libs.darm is not built here: some modules import it at the top although the functions
monitored do not use it. A stand-in lets them be imported; it refuses to disassemble."""
import sys
import types


def stub():
    try:
        import libs.darm   # noqa: F401
    except ImportError:
        m = types.ModuleType('libs.darm')

        class Missing(object):
            def __getattr__(self, name):
                raise RuntimeError('libs.darm is not available')
        m.darm = Missing()
        sys.modules['libs.darm'] = m
