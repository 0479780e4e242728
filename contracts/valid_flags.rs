use std::u32::MAX;

use crate::constants::NodeId;

/*@
impl ValidFlags {
    pub open spec fn wf(&self) -> bool {
        &&& self.valid_flag >= 1
        &&& forall|i: int| 0 <= i < self.valid_flags.len() ==> #[trigger] self.valid_flags@[i] <= self.valid_flag
    }
    pub open spec fn len(&self) -> nat { self.valid_flags@.len() }
    pub open spec fn valid(&self, i: int) -> bool { self.valid_flags@[i] == self.valid_flag }
}
@*/
pub struct ValidFlags {
    valid_flags: Vec<u32>,
    valid_flag: u32,
}

impl ValidFlags {
    pub fn new(num_nodes: usize) -> Self /*@
        ensures res.wf(), res.len() == num_nodes,
            forall|i: int| 0 <= i < num_nodes ==> !#[trigger] res.valid(i),
    @*/ {
        ValidFlags {
            valid_flags: vec![0; num_nodes],
            valid_flag: 1,
        }
    }

    pub fn is_valid(&self, node: NodeId) -> bool /*@
        requires node < self.len(),
        ensures res == self.valid(node as int),
    @*/ {
        self.valid_flags[node] == self.valid_flag
    }

    pub fn set_valid(&mut self, node: NodeId) /*@
        requires old(self).wf(), node < old(self).len(),
        ensures final(self).wf(), final(self).len() == old(self).len(), final(self).valid(node as int),
            forall|i: int| 0 <= i < old(self).len() && i != node ==> #[trigger] final(self).valid(i) == old(self).valid(i),
    @*/ {
        self.valid_flags[node] = self.valid_flag;
    }

    pub fn invalidate_all(&mut self) /*@
        requires old(self).wf(),
        ensures final(self).wf(), final(self).len() == old(self).len(),
            forall|i: int| 0 <= i < final(self).len() ==> !#[trigger] final(self).valid(i), // [C04]
    @*/ {
        if self.valid_flag == MAX {
            self.valid_flags = vec![0; self.valid_flags.len()];
            self.valid_flag = 1;
        } else {
            self.valid_flag += 1;
        }
    }
}
