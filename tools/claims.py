TECH = "abstract interpretation of the SSA (affine relations, bit provenance, symbolic strings and cell rows; trace partitioning; inductive loop summaries) against per-control transfer specifications"
BASE = "Universal over the modelled domain: any screen size, cursor, margins, style and row content satisfying the data invariant and any parameter value; obligations the domains cannot decide are counted in the evidence as undecided, not proved. Trusts the SSA builder, the engine's transfer functions, the written specification and the contract of replaceRange."
NOTES = "Every check loads /repo's current source with go/packages, builds SSA and decides the property from it; nothing of /repo is executed. See DESIGN.md."
CLAIMS = {
 "C15": {
  "technique": "static lockset and lock-order analysis over SSA and the call graph",
  "note": "Sound up to the stated assumptions for locks and shared fields it models: every callback site, shared access, blocking wait and lock acquisition in the package is an obligation. Trusts the SSA builder, the table of thread roots and that user-supplied backends and frontends honour their documented contracts.",
 },
 "C01": {
  "technique": TECH,
  "note": BASE,
 },
 "C02": {
  "technique": TECH,
  "note": BASE,
 },
 "C03": {
  "technique": TECH,
  "note": BASE,
 },
 "C04": {
  "technique": TECH,
  "note": BASE,
 },
 "C05": {
  "technique": TECH,
  "note": BASE,
 },
 "C06": {
  "technique": TECH,
  "note": BASE,
 },
 "C07": {
  "technique": TECH,
  "note": BASE,
 },
 "C08": {
  "technique": TECH,
  "note": BASE + " Segmentation independence follows from the composition of three decided facts: the reader returns the stream whatever the reads, cutting a text run changes nothing, and control sequences are read byte by byte without looking at what is buffered.",
 },
 "C09": {
  "technique": TECH,
  "note": BASE,
 },
 "C10": {
  "technique": TECH,
  "note": BASE,
 },
 "C11": {
  "technique": TECH + "; renderings are walked piece by piece by a model of the terminal that interprets them",
  "note": "The round trip is composed of decided facts: style renderings parse back to the style, row renderings interpret to the row, the mirror paints what it must from what it must; that printable text and cursor controls are interpreted as the model has it is what C03 and C04 decide. Rows of up to three spans, screens of up to three rows for the mirror, histories of up to five calls; everything else symbolic. Anything undecided is outside the claim. Trusts the SSA builder and the analyser's summaries of library functions.",
 },
 "C12": {
  "technique": TECH,
  "note": BASE,
 },
 "C13": {
  "technique": TECH,
  "note": BASE,
 },
 "C14": {
  "technique": TECH,
  "note": BASE,
 },
 "C16": {
  "technique": TECH,
  "note": BASE + " Streams of more characters than enumerated follow by induction: the reader is restarted from an arbitrary buffer state after each character.",
 },
 "C17": {
  "technique": TECH,
  "note": BASE,
 },
 "C18": {
  "technique": TECH,
  "note": BASE,
 },
 "C19": {
  "technique": TECH,
  "note": BASE,
 },
 "C20": {
  "technique": TECH + "; both buffers against one specification",
  "note": "Both buffers are held to the same transfer specification from the same arbitrary reachable state, on screens of fixed small size (every cell content, style, cursor, margin and parameter symbolic); a violation is a control one buffer is shown to break while the other is shown to satisfy it. Sizes beyond the listed ones and anything undecided are outside the claim. Trusts the SSA builder and the analyser's summaries of library functions.",
 },
}
NA = {}
