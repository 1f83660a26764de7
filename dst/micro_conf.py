"""Problem description file of the micro-problems."""


def define(kind='linear', **kwargs):
    from dst import micro_lib
    return getattr(micro_lib, 'conf_' + kind)(**kwargs)
