from ._codec import codec_parts, ASSUMPTIONS
from ..specs import C16


def parts(tier):
    return codec_parts(C16, tier)
