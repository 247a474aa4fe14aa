"""Every read-only thing a user can do with an opened image."""
from core import Violation
from atrcopy import errors, AtariDosDiskImage, Dos33DiskImage


def read_everything(parser, allow=()):
    """list, read, print; returns {name: bytes or error class name}.  Only the
    library's own errors are accepted, and only when reading a single file."""
    out = []
    str(parser)
    image = parser.image
    str(image)
    for s in parser.segments:
        str(s)
        s.verbose_info if hasattr(s, "verbose_info") else None
        len(s)
        bytes(s.data[:64]) if len(s) else b""
        if len(s):
            s.label(0)
            s.label(len(s) - 1)
    if image is None:
        return out
    for d in image.files:
        str(d)
        d.filename
        try:
            data = bytes(image.get_file(d))
        except errors.AtrError as e:
            data = "error " + type(e).__name__
        if hasattr(d, "extra_metadata"):
            try:
                str(d.extra_metadata(image))
            except errors.AtrError:
                pass
        out.append((d.filename, data))
    if hasattr(image, "dir"):
        image.dir()
    if type(image) in (AtariDosDiskImage, Dos33DiskImage):
        try:
            vtoc = image.get_vtoc_object()
            vtoc.num_free_sectors
            str(vtoc)
        except errors.AtrError:
            pass
    return out
