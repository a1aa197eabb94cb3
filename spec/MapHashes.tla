---- MODULE MapHashes ----
(* The hash assignments explored (generated from props/C04.py). *)
EXTENDS MapDesign
HEnd == <<31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31,31>>
HZero == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>
HWrap == <<31,31,30,0,0,1,28,29,31,31,30,0,0,1,28,29,31,31,30,0,0,1,28,29,31,31,30,0,0,1,28,29,31,31,30,0,0,1,28,29>>
HMix == <<28,31,24,31,4,0,27,28,28,31,24,31,4,0,27,28,28,31,24,31,4,0,27,28,28,31,24,31,4,0,27,28,28,31,24,31,4,0,27,28>>
HSpread == <<3,10,17,24,31,6,13,20,27,2,9,16,23,30,5,12,19,26,1,8,15,22,29,4,11,18,25,0,7,14,21,28,3,10,17,24,31,6,13,20>>
HTwo == <<15,16,15,31,16,0,15,31,15,16,15,31,16,0,15,31,15,16,15,31,16,0,15,31,15,16,15,31,16,0,15,31,15,16,15,31,16,0,15,31>>
====
