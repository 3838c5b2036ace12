"""C10: rolling virtual storages (see c_c09)."""
import c_c09


def run(chk):
    c_c09.run(chk, rolling=True)
