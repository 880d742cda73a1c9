from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C23


def parts(tier):
    return codec_parts(C23, tier, {"pixel monitoring": BOUND1})
