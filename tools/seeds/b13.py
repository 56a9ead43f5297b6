import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p09-zero-tail-stops"; PROPERTY="P09"
EDITS=[("poseidon-base/src/primitives/p128pow5t3_compact.rs","            let rc_tail = vec_remove_tail(&mut rc[i]);\n","            let rc_tail = vec_remove_tail(&mut rc[i]);\n            // nothing is carried any more\n            if rc_tail.iter().all(|x| x.is_zero_vartime()) {\n                break;\n            }\n")]
NEEDS="a parameter table in which the carried constants of one partial round are zero"
BREAKS="later partial rounds keep their constants in lanes 1 and 2"
MAIN=PRE+open("/verif/tools/seeds/userfield.rs").read()
