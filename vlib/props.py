"""Which contracts decide which property."""
import fnmatch, importlib, os

ASSUME = ["the C++ front end and the optimisation passes used for extraction preserve semantics",
          "p4est/p8est quadrant functions and sc_intpow behave as their models in models/ (compared natively with the installed libp4est by models/validate.sh)",
          "release configuration (T8_ENABLE_DEBUG off); x86-64 data model",
          "no concurrent modification of the arguments"]
class Prop:
    def __init__(self, id, patterns, level="proof", assumptions=(), debug=False):
        self.id, self.patterns, self.level, self.debug = id, patterns, level, debug
        self.assumptions = ASSUME + list(assumptions)
    def select(self, cs):
        r = []
        for c in cs.values():
            if any(fnmatch.fnmatch(c.id, p) for p in self.patterns):
                if c.thorough_only and os.environ.get("V_TIER") != "thorough":
                    continue
                r.append(c)
        return r

PROPS = {}
def prop(id, *pats, **kw):
    PROPS[id] = Prop(id, pats, **kw)

def load_contracts(tier):
    for m in ("schemes", "faces", "order", "cmesh"):
        importlib.import_module("contracts." + m)

E = "*."
prop("C01", *["*." + x for x in "level parent parent_inplace child child_inplace children children_inplace child_id ancestor_id sibling num_children copy_equal root lemma.child_parent lemma.parent_child".split()])
prop("C02", *["*." + x for x in "linear_id set_linear_id lemma.from_lid lemma.lid_from".split()])
prop("C12", "*.count_leaves", "*.lemma.count")
prop("C03", "*.compare", "*.lemma.cmp_order")
prop("C04", "*.successor", "*.first_descendant", "*.last_descendant", "*.lemma.successor", "*.lemma.descendants")
prop("C05", "*.nca", "*.is_ancestor", "*.ancestor", "*.lemma.geometric", "*.lemma.geometric_ancestor")
prop("C06", "*.family", "*.lemma.sw_unique")
prop("C07", "*.face_neighbor")
prop("C08", "*.face_children", "*.face_children_inplace", "*.face_child_face", "*.face_parent_face", "*.lemma.face_refinement")
prop("C09", "*.root_boundary", "*.tree_face", "*.lemma.own_root_face", "*.boundary_*", "*.extrude_*")
prop("C10", "*.transform_face", "*.transform_face_inplace", "*.transform_roundtrip")
prop("C11", "*.shape", "*.face_corner", "*.vertex_coords")
prop("C14", "*_desc_face", "*.lemma.face_desc", "*.lemma.lid_shift")
prop("C15", *["offset." + x for x in "range entry next_nonempty any_owner first_owner last_owner next_owner prev_owner".split()])
prop("C16", *["offset." + x for x in "sends_tree one_sender sends_to range_send".split()])
prop("C17", "facecode", "first_element")
