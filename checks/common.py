"""Things several harnesses share."""
SECOND = 10 ** 12


def audio_rates():
    """picoseconds per sample, as AudioSampleRate computes it"""
    return [SECOND // r for r in (96000, 48000, 44100, 22050, 16000, 11025)]


def rate_schemes():
    """(frequency, duration) in picoseconds: sample rates, gapless windows,
    lapped windows, and second/millisecond grids"""
    out = [(f, f) for f in audio_rates()]
    f44, f11 = SECOND // 44100, SECOND // 11025
    out += [
        (f44 * 1024, f44 * 2048), (f11 * 256, f11 * 512),
        (f11 * 512, f11 * 512), (f44 * 1000, f44 * 4410),
        (SECOND, SECOND), (SECOND, 2 * SECOND), (250 * 10 ** 9, 500 * 10 ** 9),
        (10 ** 9, 3 * 10 ** 9), (7, 7), (3, 11),
    ]
    return out
