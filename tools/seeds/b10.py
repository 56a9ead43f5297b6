import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p10-unsorted-dedup"; PROPERTY="P10"
EDITS=[("poseidon-base/src/primitives/mds.rs","            unique.sort_unstable();\n            unique.dedup();","            unique.dedup();")]
NEEDS="a sample in which two points that are not neighbours collide (small field or large width)"
BREAKS="a colliding sample is accepted: the matrix has two equal rows and no inverse"
MAIN=PRE+open("/verif/tools/seeds/tinyf.rs").read()+'''
fn main() { check::<61, 3>(40); check::<61, 4>(10); }
'''
