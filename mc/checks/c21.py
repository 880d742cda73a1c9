from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C21


def parts(tier):
    return codec_parts(C21, tier)
