from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C20


def parts(tier):
    return codec_parts(C20, tier, {"image parameters": BOUND1, "stereo reconstruction": BOUND1})
