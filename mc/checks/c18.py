from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C18


def parts(tier):
    return codec_parts(C18, tier, {"photo-electrons": BOUND1})
