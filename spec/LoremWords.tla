----------------------------- MODULE LoremWords -----------------------------
(* The text the filler words are taken from, as character codes.              *)
LOCAL INSTANCE Sequences
Words == <<
   <<108,111,114,101,109>>, <<105,112,115,117,109>>, <<100,111,108,111,114>>, <<115,105,116>>, <<97,109,101,116>>, <<99,111,110,115,101,99,116,101,116,117,114>>,
   <<97,100,105,112,105,115,99,105,110,103>>, <<101,108,105,116>>, <<105,110,116,101,103,101,114>>, <<110,101,99>>, <<111,100,105,111>>, <<112,114,97,101,115,101,110,116>>,
   <<108,105,98,101,114,111>>, <<115,101,100>>, <<99,117,114,115,117,115>>, <<97,110,116,101>>, <<100,97,112,105,98,117,115>>, <<100,105,97,109>>,
   <<115,101,100>>, <<110,105,115,105>>, <<110,117,108,108,97>>, <<113,117,105,115>>, <<115,101,109>>, <<97,116>>,
   <<110,105,98,104>>, <<101,108,101,109,101,110,116,117,109>>, <<105,109,112,101,114,100,105,101,116>>, <<100,117,105,115>>, <<115,97,103,105,116,116,105,115>>, <<105,112,115,117,109>>,
   <<112,114,97,101,115,101,110,116>>, <<109,97,117,114,105,115>>, <<102,117,115,99,101>>, <<110,101,99>>, <<116,101,108,108,117,115>>, <<115,101,100>>,
   <<97,117,103,117,101>>, <<115,101,109,112,101,114>>, <<112,111,114,116,97>>, <<109,97,117,114,105,115>>, <<109,97,115,115,97>>, <<118,101,115,116,105,98,117,108,117,109>>,
   <<108,97,99,105,110,105,97>>, <<97,114,99,117>>, <<101,103,101,116>>, <<110,117,108,108,97>>, <<99,108,97,115,115>>, <<97,112,116,101,110,116>>,
   <<116,97,99,105,116,105>>, <<115,111,99,105,111,115,113,117>>, <<97,100>>, <<108,105,116,111,114,97>>, <<116,111,114,113,117,101,110,116>>, <<112,101,114>>,
   <<99,111,110,117,98,105,97>>, <<110,111,115,116,114,97>>, <<112,101,114>>, <<105,110,99,101,112,116,111,115>>, <<104,105,109,101,110,97,101,111,115>>, <<99,117,114,97,98,105,116,117,114>>,
   <<115,111,100,97,108,101,115>>, <<108,105,103,117,108,97>>, <<105,110>>, <<108,105,98,101,114,111>>, <<115,101,100>>, <<100,105,103,110,105,115,115,105,109>>,
   <<108,97,99,105,110,105,97>>, <<110,117,110,99>>, <<99,117,114,97,98,105,116,117,114>>, <<116,111,114,116,111,114>>, <<112,101,108,108,101,110,116,101,115,113,117,101>>, <<110,105,98,104>>,
   <<97,101,110,101,97,110>>, <<113,117,97,109>>, <<105,110>>, <<115,99,101,108,101,114,105,115,113,117,101>>, <<115,101,109>>, <<97,116>>,
   <<100,111,108,111,114>>, <<109,97,101,99,101,110,97,115>>, <<109,97,116,116,105,115>>, <<115,101,100>>, <<99,111,110,118,97,108,108,105,115>>, <<116,114,105,115,116,105,113,117,101>>,
   <<115,101,109>>, <<112,114,111,105,110>>, <<117,116>>, <<108,105,103,117,108,97>>, <<118,101,108>>, <<110,117,110,99>>,
   <<101,103,101,115,116,97,115>>, <<112,111,114,116,116,105,116,111,114>>, <<109,111,114,98,105>>, <<108,101,99,116,117,115>>, <<114,105,115,117,115>>, <<105,97,99,117,108,105,115>>,
   <<118,101,108>>, <<115,117,115,99,105,112,105,116>>, <<113,117,105,115>>, <<108,117,99,116,117,115>>, <<110,111,110>>, <<109,97,115,115,97>>,
   <<102,117,115,99,101>>, <<97,99>>, <<116,117,114,112,105,115>>, <<113,117,105,115>>, <<108,105,103,117,108,97>>, <<108,97,99,105,110,105,97>>,
   <<97,108,105,113,117,101,116>>, <<109,97,117,114,105,115>>, <<105,112,115,117,109>>, <<110,117,108,108,97>>, <<109,101,116,117,115>>, <<109,101,116,117,115>>,
   <<117,108,108,97,109,99,111,114,112,101,114>>, <<118,101,108>>, <<116,105,110,99,105,100,117,110,116>>, <<115,101,100>>, <<101,117,105,115,109,111,100>>, <<105,110>>,
   <<110,105,98,104>>, <<113,117,105,115,113,117,101>>, <<118,111,108,117,116,112,97,116>>, <<99,111,110,100,105,109,101,110,116,117,109>>, <<118,101,108,105,116>>, <<99,108,97,115,115>>,
   <<97,112,116,101,110,116>>, <<116,97,99,105,116,105>>, <<115,111,99,105,111,115,113,117>>, <<97,100>>, <<108,105,116,111,114,97>>, <<116,111,114,113,117,101,110,116>>,
   <<112,101,114>>, <<99,111,110,117,98,105,97>>, <<110,111,115,116,114,97>>, <<112,101,114>>, <<105,110,99,101,112,116,111,115>>, <<104,105,109,101,110,97,101,111,115>>,
   <<110,97,109>>, <<110,101,99>>, <<97,110,116,101>>, <<115,101,100>>, <<108,97,99,105,110,105,97>>, <<117,114,110,97>>,
   <<110,111,110>>, <<116,105,110,99,105,100,117,110,116>>, <<109,97,116,116,105,115>>, <<116,111,114,116,111,114>>, <<110,101,113,117,101>>, <<97,100,105,112,105,115,99,105,110,103>>,
   <<100,105,97,109>>, <<97>>, <<99,117,114,115,117,115>>, <<105,112,115,117,109>>, <<97,110,116,101>>, <<113,117,105,115>>,
   <<116,117,114,112,105,115>>, <<110,117,108,108,97>>, <<102,97,99,105,108,105,115,105>>, <<117,116>>, <<102,114,105,110,103,105,108,108,97>>, <<115,117,115,112,101,110,100,105,115,115,101>>,
   <<112,111,116,101,110,116,105>>, <<110,117,110,99>>, <<102,101,117,103,105,97,116>>, <<109,105>>, <<97>>, <<116,101,108,108,117,115>>,
   <<99,111,110,115,101,113,117,97,116>>, <<105,109,112,101,114,100,105,101,116>>, <<118,101,115,116,105,98,117,108,117,109>>, <<115,97,112,105,101,110>>, <<112,114,111,105,110>>, <<113,117,97,109>>,
   <<101,116,105,97,109>>, <<117,108,116,114,105,99,101,115>>, <<115,117,115,112,101,110,100,105,115,115,101>>, <<105,110>>, <<106,117,115,116,111>>, <<101,117>>,
   <<109,97,103,110,97>>, <<108,117,99,116,117,115>>, <<115,117,115,99,105,112,105,116>>, <<115,101,100>>, <<108,101,99,116,117,115>>, <<105,110,116,101,103,101,114>>,
   <<101,117,105,115,109,111,100>>, <<108,97,99,117,115>>, <<108,117,99,116,117,115>>, <<109,97,103,110,97>>, <<113,117,105,115,113,117,101>>, <<99,117,114,115,117,115>>,
   <<109,101,116,117,115>>, <<118,105,116,97,101>>, <<112,104,97,114,101,116,114,97>>, <<97,117,99,116,111,114>>, <<115,101,109>>, <<109,97,115,115,97>>,
   <<109,97,116,116,105,115>>, <<115,101,109>>, <<97,116>>, <<105,110,116,101,114,100,117,109>>, <<109,97,103,110,97>>, <<97,117,103,117,101>>,
   <<101,103,101,116>>, <<100,105,97,109>>, <<118,101,115,116,105,98,117,108,117,109>>, <<97,110,116,101>>, <<105,112,115,117,109>>, <<112,114,105,109,105,115>>,
   <<105,110>>, <<102,97,117,99,105,98,117,115>>, <<111,114,99,105>>, <<108,117,99,116,117,115>>, <<101,116>>, <<117,108,116,114,105,99,101,115>>,
   <<112,111,115,117,101,114,101>>, <<99,117,98,105,108,105,97>>, <<99,117,114,97,101,59>>, <<109,111,114,98,105>>, <<108,97,99,105,110,105,97>>, <<109,111,108,101,115,116,105,101>>,
   <<100,117,105>>, <<112,114,97,101,115,101,110,116>>, <<98,108,97,110,100,105,116>>, <<100,111,108,111,114>>, <<115,101,100>>, <<110,111,110>>,
   <<113,117,97,109>>, <<105,110>>, <<118,101,108>>, <<109,105>>, <<115,105,116>>, <<97,109,101,116>>,
   <<97,117,103,117,101>>, <<99,111,110,103,117,101>>, <<101,108,101,109,101,110,116,117,109>>, <<109,111,114,98,105>>, <<105,110>>, <<105,112,115,117,109>>,
   <<115,105,116>>, <<97,109,101,116>>, <<112,101,100,101>>, <<102,97,99,105,108,105,115,105,115>>, <<108,97,111,114,101,101,116>>, <<100,111,110,101,99>>,
   <<108,97,99,117,115>>, <<110,117,110,99>>, <<118,105,118,101,114,114,97>>, <<110,101,99>>, <<98,108,97,110,100,105,116>>, <<118,101,108>>,
   <<101,103,101,115,116,97,115>>, <<101,116>>, <<97,117,103,117,101>>, <<118,101,115,116,105,98,117,108,117,109>>, <<116,105,110,99,105,100,117,110,116>>, <<109,97,108,101,115,117,97,100,97>>,
   <<116,101,108,108,117,115>>, <<117,116>>, <<117,108,116,114,105,99,101,115>>, <<117,108,116,114,105,99,101,115>>, <<101,110,105,109>>, <<99,117,114,97,98,105,116,117,114>>,
   <<115,105,116>>, <<97,109,101,116>>, <<109,97,117,114,105,115>>, <<109,111,114,98,105>>, <<105,110>>, <<100,117,105>>,
   <<113,117,105,115>>, <<101,115,116>>, <<112,117,108,118,105,110,97,114>>, <<117,108,108,97,109,99,111,114,112,101,114>>, <<110,117,108,108,97>>, <<102,97,99,105,108,105,115,105>>,
   <<105,110,116,101,103,101,114>>, <<108,97,99,105,110,105,97>>, <<115,111,108,108,105,99,105,116,117,100,105,110>>, <<109,97,115,115,97>>, <<99,114,97,115>>, <<109,101,116,117,115>>,
   <<115,101,100>>, <<97,108,105,113,117,101,116>>, <<114,105,115,117,115>>, <<97>>, <<116,111,114,116,111,114>>, <<105,110,116,101,103,101,114>>,
   <<105,100>>, <<113,117,97,109>>, <<109,111,114,98,105>>, <<109,105>>, <<113,117,105,115,113,117,101>>, <<110,105,115,108>>,
   <<102,101,108,105,115>>, <<118,101,110,101,110,97,116,105,115>>, <<116,114,105,115,116,105,113,117,101>>, <<100,105,103,110,105,115,115,105,109>>, <<105,110>>, <<117,108,116,114,105,99,101,115>>,
   <<115,105,116>>, <<97,109,101,116>>, <<97,117,103,117,101>>, <<112,114,111,105,110>>, <<115,111,100,97,108,101,115>>, <<108,105,98,101,114,111>>,
   <<101,103,101,116>>, <<97,110,116,101>>, <<110,117,108,108,97>>, <<113,117,97,109>>, <<97,101,110,101,97,110>>, <<108,97,111,114,101,101,116>>,
   <<118,101,115,116,105,98,117,108,117,109>>, <<110,105,115,105>>, <<108,101,99,116,117,115>>, <<99,111,109,109,111,100,111>>, <<97,99>>, <<102,97,99,105,108,105,115,105,115>>,
   <<97,99>>, <<117,108,116,114,105,99,105,101,115>>, <<101,117>>, <<112,101,100,101>>, <<117,116>>, <<111,114,99,105>>,
   <<114,105,115,117,115>>, <<97,99,99,117,109,115,97,110>>, <<112,111,114,116,116,105,116,111,114>>, <<99,117,114,115,117,115>>, <<113,117,105,115>>, <<97,108,105,113,117,101,116>>,
   <<101,103,101,116>>, <<106,117,115,116,111>>, <<115,101,100>>, <<112,114,101,116,105,117,109>>, <<98,108,97,110,100,105,116>>, <<111,114,99,105>>,
   <<117,116>>, <<101,117>>, <<100,105,97,109>>, <<97,116>>, <<112,101,100,101>>, <<115,117,115,99,105,112,105,116>>,
   <<115,111,100,97,108,101,115>>, <<97,101,110,101,97,110>>, <<108,101,99,116,117,115>>, <<101,108,105,116>>, <<102,101,114,109,101,110,116,117,109>>, <<110,111,110>>,
   <<99,111,110,118,97,108,108,105,115>>, <<105,100>>, <<115,97,103,105,116,116,105,115>>, <<97,116>>, <<110,101,113,117,101>>, <<110,117,108,108,97,109>>,
   <<109,97,117,114,105,115>>, <<111,114,99,105>>, <<97,108,105,113,117,101,116>>, <<101,116>>, <<105,97,99,117,108,105,115>>, <<101,116>>,
   <<118,105,118,101,114,114,97>>, <<118,105,116,97,101>>, <<108,105,103,117,108,97>>, <<110,117,108,108,97>>, <<117,116>>, <<102,101,108,105,115>>,
   <<105,110>>, <<112,117,114,117,115>>, <<97,108,105,113,117,97,109>>, <<105,109,112,101,114,100,105,101,116>>, <<109,97,101,99,101,110,97,115>>, <<97,108,105,113,117,101,116>>,
   <<109,111,108,108,105,115>>, <<108,101,99,116,117,115>>, <<118,105,118,97,109,117,115>>, <<99,111,110,115,101,99,116,101,116,117,101,114>>, <<114,105,115,117,115>>, <<101,116>>,
   <<116,111,114,116,111,114>>
>>
=============================================================================
