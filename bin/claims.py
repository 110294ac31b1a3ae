JN = DESIGN + CONF + "Whole groups of real party coordinators run on an in-memory network in virtual time; 2 to 6 nodes, message loss, delay, repetition, absent nodes and injected messages; stale answers of an earlier attempt for the same session are out of scope."
for p in ["C02", "C03", "C04"]:
    claim(p, "Join.tla", "model_checking", JN)
claim("C01", "Leader.tla", "model_checking", DESIGN + CONF + "Elections over 2 to 16 keys with all kinds of orders, sub-lists, sessions and heights; the model constrains the function only by the property (any common choice is allowed), so another hash or order stays quiet.")
claim("C25", "Identity.tla", "model_checking", DESIGN + CONF + "Keys are sampled; malformed inputs from a list of kinds for each conversion; thresholds for 1 to 400 participants.")
claim("C13", "Comm.tla", "model_checking", DESIGN + CONF + "Operations that run at the same time must have the effect of some order of them; subscription channels have room for what arrives.")
claim("C15", "Comm.tla", "model_checking", DESIGN + CONF + "The stream manager itself, and the message layer, both party coordinators and the signature notifier through the streams they are given; things that happen during a release are forced from inside a stream's reset.")
claim("C14", "Frames.tla", "model_checking", DESIGN + CONF + "Sizes around buffer and payload limits, chunkings, cuts, endings of the stream; allocation is measured for oversized frames only.")
claim("C16", "Notify.tla", "model_checking", DESIGN + CONF + "Real ECDSA signatures with kinds of corruption of each field; one wait for a session at a time.")
for p in ["C19", "C20"]:
    claim(p, "Store.tla", "model_checking", DESIGN + CONF + "Interruptions are real: write limits on the process (the save fails or the process dies at that byte) and SIGKILL at random moments; loss of data that the operating system has taken over is out of scope.")
