class BackendRep(object):
    def run(self, inputs, **kwargs):
        return (None,)


class Backend(object):
    @classmethod
    def is_compatible(cls, model, device="CPU", **kwargs):
        return True
