"""C08: see c_c05 (random networks) for the machinery"""
import c_c05


def run(chk):
    c_c05.run(chk)
