from torch.nn import Module


class InteractionBlock(Module):
    pass


class RealAgnosticInteractionBlock(InteractionBlock):
    pass


class RealAgnosticDensityInteractionBlock(InteractionBlock):
    pass


class RealAgnosticResidualInteractionBlock(InteractionBlock):
    pass


class RealAgnosticDensityResidualInteractionBlock(InteractionBlock):
    pass


class RealAgnosticAttResidualInteractionBlock(InteractionBlock):
    pass
