T_ = "TLA+ specification checked by TLC; histories of the real server validated against it with TLC"
DEFAULT = (T_, "Exhaustive for the specification within its stated constants; for the code, every recorded history (model walks, random concurrent histories under schedule noise and virtual time) is explained by the specification. Trusts TLC, the driver and the LD_PRELOAD environment shim.")
NOTES = "All checks drive the unmodified server binary built from /repo through its wire protocol; no hooks in /repo are needed."
