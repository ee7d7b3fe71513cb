----------------------------- MODULE Enumerate -----------------------------
(* All layouts of the configurations; complete layouts are printed.          *)
EXTENDS Layout
Emit == Complete => PrintT("@L " \o ToJson(<<ci, g>>))
=============================================================================
