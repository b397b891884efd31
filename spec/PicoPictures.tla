---------------------------- MODULE PicoPictures ----------------------------
(***************************************************************************)
(* util/prepare_images.py as transitions of a directory tree.              *)
(*   fs   maps a path to the set of contents it may have, None standing    *)
(*        for "no such file"; a path outside the domain holds no file      *)
(*   an image is [w, h, m, px, f]: its mode (RGB, or L for grey), its      *)
(*        pixels row by row, and the filters of the resamplings it went    *)
(*        through                                                          *)
(* A run opens with the images that lie in its directory then, and writes  *)
(* one image for each that it treats.                                      *)
(***************************************************************************)
EXTENDS PicoTensor, Json
CONSTANTS Keys, Cases(_), Emit

None == [w |-> 0, h |-> 0, m |-> "", px |-> <<>>, f |-> <<>>]
AntiAlias == 1
Img(w, h, m, px) == [w |-> w, h |-> h, m |-> m, px |-> px, f |-> <<>>]
Window(im, x, y, w, h) == [im EXCEPT !.w = w, !.h = h, !.px = TLCEval([k \in 1..(w * h) |-> im.px[(y + ((k - 1) \div w)) * im.w + x + ((k - 1) % w) + 1]])]
(* what resampling makes of the pixels is not this program's matter; any function of image and size will do *)
Scaled(im, w, h) == [im EXCEPT !.w = w, !.h = h, !.f = Append(@, AntiAlias),
                     !.px = TLCEval([k \in 1..(w * h) |-> im.px[((((k - 1) \div w) * im.h) \div h) * im.w + ((((k - 1) % w) * im.w) \div w) + 1] + 100000])]

(* names: [stem, ext, ils]: stem \o ext is the file's name; ils: it starts with "ILSVRC" *)
Name(n) == n.stem \o n.ext
IsImage(n) == n.ext = ".JPEG"
Two(s) == IF Len(s) = 1 THEN <<s[1], s[1]>> ELSE s
Size(s) == ToString(Two(s)[1]) \o "x" \o ToString(Two(s)[2])
Usable(a) == /\ Len(a.size) \in {1, 2}
             /\ a.mode \in {"scale", "crop", "center_crop"}
             /\ a.mode = "crop" => Len(a.pos) \in {1, 2}
Folder(a) == a.dir \o (CASE a.mode = "scale" -> "/scaled_" [] a.mode = "crop" -> "/cropped_" [] OTHER -> "/center_cropped_") \o Size(a.size)
Target(a, n) == Folder(a) \o "/" \o Size(a.size) \o "_" \o a.mode \o "_" \o Name(n)

(* what a run makes of one image: a set of contents of the target; {} stands for "as it was" *)
Made(a, im) ==
  LET z == Two(a.size) p == IF a.mode = "crop" THEN Two(a.pos) ELSE <<0, 0>> IN
  CASE a.mode = "scale" -> Scaled(im, z[1], z[2])
    [] a.mode = "center_crop" -> Window(im, (im.w - z[1]) \div 2, (im.h - z[2]) \div 2, z[1], z[2])
    [] OTHER -> Window(im, p[1], p[2], z[1], z[2])
Fits(a, im) ==
  LET z == Two(a.size) p == IF a.mode = "crop" THEN Two(a.pos) ELSE <<0, 0>> IN
  CASE a.mode = "scale" -> TRUE
    [] a.mode = "center_crop" -> z[1] <= im.w /\ z[2] <= im.h
    [] OTHER -> p[1] + z[1] <= im.w /\ p[2] + z[2] <= im.h
(* the documentation asks for windows ending before the image's last column and row *)
Touches(a, im) == a.mode = "crop" /\ LET z == Two(a.size) p == Two(a.pos) IN p[1] + z[1] = im.w \/ p[2] + z[2] = im.h
Treated(a, n) == IsImage(n) /\ (a.mode = "crop" => n.ils)
Maybe(a, n) == IsImage(n) /\ a.mode = "crop" /\ ~n.ils

VARIABLES key, acts, pc, names, fs, log
vars == <<key, acts, pc, names, fs, log>>
EmptyF == [x \in {} |-> 0]
Holds(p) == IF p \in DOMAIN fs THEN fs[p] ELSE {None}
Path(d, n) == d \o "/" \o Name(n)
(* names that lie in directory d *)
In(d) == {n \in names : n.dir = d /\ Holds(Path(d, n)) # {None}}
Content(d, n) == CHOOSE c \in Holds(Path(d, n)) : TRUE

Run(a) ==
  LET here == In(a.dir)
      use == {n \in here : Treated(a, n)}
      odd == {n \in here : Maybe(a, n)}
      bad == {n \in use : ~Fits(a, Content(a.dir, n)) \/ Touches(a, Content(a.dir, n))}
      new(n) == LET im == Content(a.dir, n) t == Target(a, n) old == Holds(t) IN
                IF ~Fits(a, im) THEN old                       \* never a picture of what is not there
                ELSE IF n \in odd \/ bad # {} THEN old \cup {Made(a, im)}   \* a window outside one image may stop the run
                ELSE {Made(a, im)}
      made == use \cup odd
  IN IF ~Usable(a) THEN fs ELSE [p \in DOMAIN fs \cup {Target(a, n) : n \in made} |-> IF \E n \in made : Target(a, n) = p THEN new(CHOOSE n \in made : Target(a, n) = p) ELSE fs[p]]
(* names of what a run wrote, so that a later run may work on its results *)
Results(a) == IF ~Usable(a) THEN {} ELSE {[dir |-> Folder(a), stem |-> Size(a.size) \o "_" \o a.mode \o "_" \o n.stem, ext |-> n.ext, ils |-> FALSE] : n \in {m \in In(a.dir) : Treated(a, m) \/ Maybe(a, m)}}

Init == key \in Keys /\ acts = <<>> /\ pc = 0 /\ names = {} /\ fs = EmptyF /\ log = <<>>
Pick == /\ pc = 0 /\ \E c \in Cases(key) : acts' = c
        /\ pc' = 1 /\ UNCHANGED <<key, names, fs, log>>
Now(o) == pc >= 1 /\ pc <= Len(acts) /\ acts[pc].op = o
Step == /\ log' = Append(log, [p \in DOMAIN fs' |-> SetToSeq(fs'[p])]) /\ pc' = pc + 1 /\ UNCHANGED <<key, acts>>
Put == /\ Now("img") /\ LET a == acts[pc] IN
          /\ names' = names \cup {[dir |-> a.dir, stem |-> a.n.stem, ext |-> a.n.ext, ils |-> a.n.ils]}
          /\ fs' = (Path(a.dir, a.n) :> {a.im}) @@ fs
       /\ Step
Del == /\ Now("rm") /\ fs' = (Path(acts[pc].dir, acts[pc].n) :> {None}) @@ fs /\ UNCHANGED names /\ Step
Prepare == /\ Now("prep") /\ fs' = Run(acts[pc]) /\ names' = names \cup Results(acts[pc]) /\ Step
Finish == /\ pc >= 1 /\ pc = Len(acts) + 1
          /\ Emit => PrintT(ToJson([key |-> key, acts |-> acts, log |-> log]))
          /\ pc' = -1 /\ acts' = <<>> /\ names' = {} /\ fs' = EmptyF /\ log' = <<>> /\ UNCHANGED key
Next == Pick \/ Put \/ Del \/ Prepare \/ Finish
Spec == Init /\ [][Next]_vars
View == <<key, acts, pc>>

(* ---- properties of the model ---- *)
IsImg(c) == Len(c.px) = c.w * c.h
TypeOK == \A p \in DOMAIN fs : fs[p] # {} /\ \A c \in fs[p] : IsImg(c)
(* runs work on images that are known, and of at least the size of a centred crop *)
WellPosed == (Now("prep") /\ Usable(acts[pc])) => \A n \in In(acts[pc].dir) : Cardinality(Holds(Path(acts[pc].dir, n))) = 1
                /\ (acts[pc].mode = "center_crop" /\ IsImage(n)) => Fits(acts[pc], Content(acts[pc].dir, n))
(* a run changes nothing outside its own folder *)
Sources == [][Now("prep") => \A p \in DOMAIN fs : (fs'[p] # fs[p]) => \E n \in In(acts[pc].dir) : Target(acts[pc], n) = p]_vars
(* a centred window leaves the same border on both sides, or one more at the bottom right *)
Centred == (Now("prep") /\ Usable(acts[pc]) /\ acts[pc].mode = "center_crop") =>
   \A n \in In(acts[pc].dir) : IsImage(n) => LET im == Content(acts[pc].dir, n) z == Two(acts[pc].size) l == (im.w - z[1]) \div 2 t == (im.h - z[2]) \div 2 IN
      ((im.w - z[1]) - (2 * l)) \in {0, 1} /\ ((im.h - z[2]) - (2 * t)) \in {0, 1}
=============================================================================
