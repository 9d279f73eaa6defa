"""Registration helper for contract modules."""


class Registry(list):
    def __call__(self, label, *functions, setup=None, raises=(), may_not_return=False):
        def deco(fn):
            self.append(dict(label=label, functions=list(functions), verify=fn, setup=setup,
                             kw=dict(raises=raises) if raises else {}, may_not_return=may_not_return))
            return fn
        return deco
