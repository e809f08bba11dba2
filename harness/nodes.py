"""Small prototypes made for one case, and recording of notifications"""
_NO = object()


def field(name, ft, default=_NO, exposure=1):
    from vrml import fieldtypes, node
    cls = getattr(fieldtypes, ft, None) or getattr(node, ft)
    if default is _NO:
        return cls(name, exposure)
    return cls(name, exposure, default)


def proto(name, *fields):
    from vrml import node
    return node.prototype(name, fields)


class Log:
    """Records the notifications about nodes; keeps itself connected while it lives"""
    def __init__(self, node=None, f=None, look=None):
        """look -- called with the node at each notification of f"""
        self.events = []
        self.seen = None
        self.look = look
        self.connected = []
        if node is not None:
            self.watch(node, f)

    def watch(self, node, f=None):
        """All signals of the node, or only those of one field"""
        from pydispatch import dispatcher
        if f is None:
            def receiver(signal, sender, value=None):
                self.events.append((signal, sender, value))
            dispatcher.connect(receiver, sender=node, signal=dispatcher.Any)
            self.connected.append(receiver)
        else:
            for kind in ('set', 'del', 'route'):
                def receiver(signal, sender, value=None):
                    self.events.append((signal, sender, value))
                    if self.look:
                        self.seen = self.look(sender)
                f.watch(node, receiver, (kind, f))
                self.connected.append(receiver)

    def take(self):
        e, self.events[:] = list(self.events), []
        return e
