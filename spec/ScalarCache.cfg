SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
          Moduli = {2, 3, 9, 16, 17}
          None = None
INVARIANT Right
CHECK_DEADLOCK FALSE
