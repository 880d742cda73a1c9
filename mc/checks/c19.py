from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C19


def parts(tier):
    return codec_parts(C19, tier, {"camera organization": BOUND1, "camera settings": BOUND1, "pixel settings": BOUND1})
