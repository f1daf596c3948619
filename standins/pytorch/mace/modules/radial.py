from torch.nn import Module


class ZBLBasis(Module):
    pass


class OtherPairRepulsion(Module):
    pass
