---- MODULE MimeTable ----
(* The documented MIME constants and the file extensions that map to them. *)
EXTENDS Integers, Sequences, Emit, TLC
Ext == [js |-> "application/javascript", json |-> "application/json", swf |-> "application/x-shockwave-flash",
        wasm |-> "application/wasm", xml |-> "application/xml", bmp |-> "image/bmp", gif |-> "image/gif",
        jpe |-> "image/jpeg", jpeg |-> "image/jpeg", jpg |-> "image/jpeg", png |-> "image/png",
        svg |-> "image/svg+xml", svgz |-> "image/svg+xml", tif |-> "image/tiff", tiff |-> "image/tiff",
        css |-> "text/css", htm |-> "text/html", html |-> "text/html", php |-> "text/html",
        txt |-> "text/plain", flv |-> "video/x-flv"]
Consts == <<"application/javascript", "application/json", "application/msgpack", "application/octet-stream",
  "application/pdf", "application/x-shockwave-flash", "application/text", "application/wasm",
  "application/x-www-form-urlencoded", "application/xml", "image/bmp", "image/gif", "image/jpeg", "image/png",
  "image/svg+xml", "image/tiff", "multipart/form-data", "text/css", "text/csv", "text/html", "text/javascript",
  "text/plain", "text/xml", "video/x-flv">>
Strange == {"", "abc", "jss", "j", "htmlx", "js ", " js", "tx", "svgzz", "p.h.p", "j-s"}
Of(e) == IF e \in DOMAIN Ext THEN Ext[e] ELSE "no"
VARIABLE x
InitX == x \in DOMAIN Ext \cup Strange
NextX == UNCHANGED x
Dirs == {"", "a/b.c/", "/", "x.html.", ".", "no.dots.at.all/"}
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "." THEN i ELSE LastDot(s, i - 1)
PathOf(q) == LET k == LastDot(q, Len(q)) IN IF k = 0 THEN "no" ELSE Of(SubSeq(q, k + 1, Len(q)))
EmitInv == /\ Emit([k |-> "ext", i |-> x, r |-> Of(x)])
           /\ \A d \in Dirs : \A n \in {"file.", "file", "."} :
                Emit([k |-> "path", i |-> d \o n \o x, r |-> PathOf(d \o n \o x)])
           /\ (x = "js" => \A i \in DOMAIN Consts : Emit([k |-> "const", i |-> i, r |-> Consts[i]]))
====
