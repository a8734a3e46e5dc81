"""Direct linear convolution references."""
import numpy as np
from scipy import signal


def centre(n):
    """0-based index of the central pixel of a PSF axis."""
    return n // 2 if n % 2 else n // 2


def direct(img, psf):
    """Zero-boundary convolution, same size as img, PSF centred on its central pixel (direct summation)."""
    img, psf = np.asarray(img, float), np.asarray(psf, float)
    full = signal.convolve2d(img, psf, mode="full")
    cy, cx = centre(psf.shape[0]), centre(psf.shape[1])
    return full[cy:cy + img.shape[0], cx:cx + img.shape[1]]
