from cc import *
ID="c08-domain-alignment"; PROPERTY="C08"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''        self.checks.resize(self.inputs.len(), None);
        self.domain.resize(self.inputs.len(), None);
        self.controls.resize(self.inputs.len(), 0);
''','''        self.checks.resize(self.inputs.len(), None);
        self.controls.resize(self.inputs.len(), 0);
'''),(F,'''        self.checks.push(check);
        self.domain.resize(self.inputs.len(), None);
''','''        self.checks.push(check);
        // messages have no domain
        if !self.domain.is_empty() {
            self.domain.resize(self.inputs.len(), None);
        }
''')]
NEEDS="a streamed message before the first two-to-one entry of the table"
BREAKS="the domains of later entries slide onto the rows of the message"
MAIN=HEAD+'''
fn main() {
    let mut t = PoseidonHashTable::<Fr>::default();
    t.stream_inputs([[elem(1), elem(2)], [elem(3), elem(4)]].iter(), 40, 32);
    t.fixed_inputs([([elem(5), elem(6)], elem(7), None)].iter());
    demand(t.domain.get(2) == Some(&Some(elem(7))) && t.domain[0].is_none() && t.domain[1].is_none(), "domains slide");
}
'''
