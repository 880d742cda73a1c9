from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C22


def parts(tier):
    return codec_parts(C22, tier, {"pixel timing": BOUND1})
