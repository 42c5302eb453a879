"""Property id -> harness module."""
INDEX = {}


def _reg(mod, *ids):
    for i in ids:
        INDEX[i] = mod


_reg("ranges", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")
_reg("spans", "C09", "C10", "C11")
_reg("small", "C12", "C13", "C14", "C25", "C26", "C28", "C29")
_reg("params", "C15", "C16", "C17", "C18")
_reg("loading", "C19", "C32", "C33", "C34")
_reg("stores", "C20", "C21", "C22", "C23", "C24", "C27", "C30", "C42")
_reg("factories", "C31")
_reg("fileio", "C35", "C36", "C37", "C38")
_reg("paths", "C39")
_reg("attribs", "C40", "C41")
