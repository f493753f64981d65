CORRECTIONS = """\
* C02: the property first said that every ridge cell is labelled, and that peaks and basins match on any data. The
  algorithm's own definition leaves cells of a constant field and some ridge cells at 0, so the statement says exactly when a
  cell may stay 0, and what a peak is (a flat region of the *digitized* grid). Matching was first judged by the search and is now
  proved.
  A later form (a cell stays 0 only if no neighbour has a basin) fails on a ridge more than five cells long (a 13x40 grid with two
  peaks and a descending crest between them): the labels move outward in five rounds, as in WW3's w3partmd.f90 that the
  function follows, so the statement now says what five rounds give. The
  proof showed that those rounds need differences no larger than the largest value (negative data break it), so that is stated too.
* C04, C06: angles and directions on a source bin are compared by real arithmetic in the proof; the witness compares with a
  relative tolerance, as sums in another order differ in the last bits. A first tolerance was too tight for sums of thousands of cells.
* C11: half turns of degrees near the end of i32 overflow; the property is limited to 0..=2^31-256, which callers cannot leave.
* C13: the text "within a box" first left a box all the way round undefined; it is every longitude.
* C17: equal components of equal peak energy have no defined order between them; the statement asks for decreasing energy only.
* C18: the proof covers swells with a period and direction and steps at least a second apart; the others are tried by the search
  (a division by a zero time step makes the comparison undefined, which the code treats as no match).
* C05, C08, C16 and others quantify over the grids the code is defined for (ascending, at least two bins, less than a full turn);
  unsorted input is not an alarm.
"""
PROPS_HEAD = """\
Each property is a postcondition of the functions listed (or a lemma over those postconditions). Oracle of the proof: the specification
functions in the overlay, written from the property's text; oracle of the witness: an independent computation in Rust. Cost per check is
5 to 120 s (build of the witness included). Why the proof reaches what tests cannot: it quantifies over every input, the
tests sample. The quick and the thorough tier prove the same; the thorough witness searches about ten times more.
"""
SEEDS_HEAD = """\
Written from the properties' texts; every one builds, passes the stable tests and comes with a demonstration that tells it from the unchanged tree
(`tools/seedtest.sh`). "caught by" is what the check printed (`tools/seedall.sh` writes it down): the failed obligation,
and whether the search also found an input. Strengthenings they led to: the ridge rule of C02 (C02-ridge-contact was missed until the witness
judged contacts by the flooding distance), equality of labels and values in one go for C09, exactness of the label texts in C10,
the order of equal peaks in C17, and entry by entry comparison in C16.
"""
EXTRA = {}
