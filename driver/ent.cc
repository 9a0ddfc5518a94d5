// C28: entity ids. Interpreted by checks/ent.py, never run.
#include "common.hh"

namespace vf {
    void ent_cmp(Entity &x, Entity &y) {
        mark("begin");
        observe("eq", x == y);
        observe("ne", x != y);
        observe("lt", x < y);
        observe("gt", y < x);
        mark("stop");
    }
    void ent_self(Entity &x) {
        Entity y = x;
        observe("eq", x == y);
        observe("ne", x != y);
        observe("lt", x < y);
        observe("gt", y < x);
        Entity z;
        z = x;
        observe("copy", z.generation, z.index);
        observe("copy", y.generation, y.index);
        mark("stop");
    }
    void ent_hash(Entity &x) {
        observe("hash", std::hash<Entity>()(x));
        mark("stop");
    }
    void ent_null(Entity &x) {
        mark("begin");
        observe("bool", (bool)x);
        observe("not", !x);
        Entity n;
        observe("nbool", (bool)n);
        observe("nnot", !n);
        observe("neq", n == Entity());
        observe("nfields", n.generation, n.index);
        mark("stop");
    }
    void ent_round(Entity &x) {
        Entity y((uint64_t)x);
        observe("back", y.generation, y.index);
        mark("stop");
    }
    void ent_int(uint64_t v) {
        Entity y(v);
        observe("int", (uint64_t)y);
        mark("stop");
    }
    void ent_make(TECS_ENTITY_INDEX_TYPE index, TECS_ENTITY_GENERATION_TYPE gen, TECS_ENTITY_ECS_IDENTIFIER_TYPE id) {
        Entity two(index, gen);
        observe("two", two.generation, two.index);
        Entity three(index, gen, id);
        observe("three", IdentifierFromGeneration(three.generation), GenerationWithoutIdentifier(three.generation), three.index);
        mark("stop");
    }
    void ent_pack(TECS_ENTITY_GENERATION_TYPE gen, TECS_ENTITY_ECS_IDENTIFIER_TYPE id) {
        auto p = GenerationWithIdentifier(gen, id);
        observe("pack", IdentifierFromGeneration(p), GenerationWithoutIdentifier(p));
        auto q = GenerationWithIdentifier(GenerationWithoutIdentifier(gen), IdentifierFromGeneration(gen));
        observe("repack", q);
        mark("stop");
    }
} // namespace vf
