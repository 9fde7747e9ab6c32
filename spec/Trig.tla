-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine in fifty-thousandths, of angles in hundredths of a degree. *)
EXTENDS Integers, Sequences
TrigScale == 50000
SinTab == <<0, 873, 1745, 2617, 3488, 4358, 5226, 6093, 6959, 7822, 8682, 9540, 10396, 11248, 12096, 12941, 13782, 14619, 15451, 16278, 17101, 17918, 18730, 19537, 20337, 21131, 21919, 22700, 23474, 24240, 25000, 25752, 26496, 27232, 27960, 28679, 29389, 30091, 30783, 31466, 32139, 32803, 33457, 34100, 34733, 35355, 35967, 36568, 37157, 37735, 38302, 38857, 39401, 39932, 40451, 40958, 41452, 41934, 42402, 42858, 43301, 43731, 44147, 44550, 44940, 45315, 45677, 46025, 46359, 46679, 46985, 47276, 47553, 47815, 48063, 48296, 48515, 48719, 48907, 49081, 49240, 49384, 49513, 49627, 49726, 49810, 49878, 49931, 49970, 49992, 50000>>
\* 0 <= a <= 9000
Sin90(a) == LET d == a \div 100  f == a % 100 IN
            IF f = 0 THEN SinTab[d + 1] ELSE (SinTab[d + 1] * (100 - f) + SinTab[d + 2] * f + 50) \div 100
Sin(a) == LET b == a % 36000 IN
          IF b <= 9000 THEN Sin90(b) ELSE IF b <= 18000 THEN Sin90(18000 - b)
          ELSE IF b <= 27000 THEN -Sin90(b - 18000) ELSE -Sin90(36000 - b)
Cos(a) == Sin(a + 9000)
=============================================================================
