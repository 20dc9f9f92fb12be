def load(pid):
    from . import props

    return props.scenarios(pid)
