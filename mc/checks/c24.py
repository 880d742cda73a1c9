from ._codec import codec_parts, ASSUMPTIONS
from ..specs import C24


def parts(tier):
    return codec_parts(C24, tier)
