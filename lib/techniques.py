"""What decides each property, for MANIFEST.json."""
TRACE = "TLA+ specification checked with TLC, bound to the code by TLC trace validation of recorded runs"
NOTE = ("The specification is checked exhaustively with TLC on small constants; the code is bound to it by running it in situations generated "
        "from the specification and at random (seeded schedules in virtual time, and over TCP) and having TLC decide whether each recorded "
        "history is one the specification allows. Assurance on the code is for the explored runs. Trusted: the recording driver, Go's synctest, TLC.")
TECH = {k: (TRACE, NOTE) for k in "HDRCNKWMGL"}
