id="c23-first-address"; property="C23"
needs="a node table that is told of a member again, with another address (a node that came back), through an update"
what="the table keeps the member's first address, so its choices differ from those of nodes that learnt of the member later"
edits=[("coerce/src/remote/cluster/node.rs","""        for node in nodes {
            self.nodes.insert(node.id, node);
        }
""","""        for mut node in nodes {
            if let Some(known) = self.nodes.get(&node.id) {
                node.addr = known.addr.clone();
            }
            self.nodes.insert(node.id, node);
        }
""")]
main='''
use coerce::remote::cluster::node::{RemoteNode, RemoteNodeState, RemoteNodeStore};
fn node(id: u64, addr: &str) -> RemoteNodeState { RemoteNodeState::new(RemoteNode::new(id, addr.to_string(), format!("n{id}"), None, Default::default())) }
fn main() {
    let mut a = RemoteNodeStore::new(vec![]);
    a.update_nodes(vec![node(1, "10.0.0.1:1"), node(2, "10.0.0.2:1"), node(3, "10.0.0.3:1")]);
    a.update_nodes(vec![node(2, "10.0.0.9:1")]);
    let mut b = RemoteNodeStore::new(vec![]);
    b.update_nodes(vec![node(1, "10.0.0.1:1"), node(2, "10.0.0.9:1"), node(3, "10.0.0.3:1")]);
    for k in 0..500 {
        let key = format!("key-{k}");
        let (x, y) = (a.get_by_key(&key).map(|n| (n.id, n.addr.clone())), b.get_by_key(&key).map(|n| (n.id, n.addr.clone())));
        assert_eq!(x, y, "choice for {key}");
    }
}
'''
