SKIP = {}
DEFAULT = ("The specification is model-checked exhaustively on small constants; the implementation is bound to it by validating "
           "traces recorded from generated runs of the real code, so the guarantee covers the explored inputs. Trusted: TLC, the harness's "
           "projection of floats to scaled integers.")
NOTES = {}
