-------------------------------- MODULE Strm --------------------------------
(* A byte stream: the bytes number rd .. wr-1 are inside; byte number i has value i mod 251. *)
EXTENDS Runs
VARIABLES rd, wr, room, pops, vec
\* room: writable size; pops: what was popped out, as intervals <<from, to>>; vec: size of the
\* space offered last for writing in place
strmvars == <<rd, wr, room, pops, vec>>
StrmInit == rd = 0 /\ wr = 0 /\ room = 0 /\ pops = <<>> /\ vec = 0
Have == wr - rd
Write(n) == wr' = wr + n /\ UNCHANGED <<rd, pops>> /\ vec' = 0
Reserve(n) == UNCHANGED <<rd, wr, pops>> /\ room' >= n /\ room' >= room /\ vec' = 0
\* all: the vectors could cover everything.
Offer(n, all) == n <= room /\ (room > 0 => n > 0) /\ (all = 1 => n = room) /\ vec' = n /\ UNCHANGED <<rd, wr, room, pops>>
Propagate(n) == n <= vec /\ wr' = wr + n /\ room' = room - n /\ UNCHANGED <<rd, pops>> /\ vec' = 0
Consume_(n) == n <= Have /\ rd' = rd + n /\ UNCHANGED <<wr, pops>> /\ vec' = 0
Pop == rd' = wr /\ pops' = Append(pops, <<rd, wr>>) /\ UNCHANGED wr /\ vec' = 0
Clear == rd' = wr /\ UNCHANGED <<wr, pops>> /\ vec' = 0
Keep == UNCHANGED strmvars
=============================================================================
