//! What is generated for each property.
use crate::expr::ExprProf;
use crate::gen::Prof;

/// A little of everything.
pub fn base() -> Prof {
    Prof {
        ep: ExprProf { depth: 2, log: 6, wild: 12, nasty: 10, plain: false },
        max_nodes: 14,
        depth: 4,
        roots: 4,
        kids: 4,
        many: 2,
        nodes: [5, 5, 2, 8, 2, 1, 2, 1, 3, 1],
        attrs: 4,
        aw: [6, 3, 3, 2, 2, 2, 2, 3, 2, 2, 2, 1, 1, 1],
        sels: 20,
        forms: [4, 4, 3, 2, 2, 1],
        reuse: 30,
        props: 3,
        chk: 70,
        slots: 20,
        dirs: 2,
        dw: [2, 2, 1, 3, 2, 2, 2, 1, 1],
        args: 15,
        clones: 15,
        generics: 15,
        paths: 20,
        shadow: false,
        undelegated: 0,
        names: Default::default(),
        free: Default::default(),
    }
}

const SIMPLE: ExprProf = ExprProf { depth: 1, log: 2, wild: 10, nasty: 5, plain: false };

/// What is drawn for the property.
pub fn of(id: &str) -> Prof {
    let b = base();
    let plain = Prof {
        ep: SIMPLE,
        sels: 5,
        attrs: 1,
        props: 1,
        slots: 0,
        dirs: 0,
        args: 0,
        clones: 0,
        generics: 0,
        paths: 0,
        ..b.clone()
    };
    match id {
        "C01" => Prof {
            max_nodes: 30,
            depth: 6,
            kids: 6,
            roots: 5,
            many: 3,
            nodes: [6, 4, 1, 9, 5, 3, 5, 3, 0, 0],
            attrs: 1,
            ..plain
        },
        "C02" => Prof {
            max_nodes: 20,
            roots: 8,
            kids: 8,
            many: 20,
            nodes: [4, 3, 8, 5, 1, 0, 1, 1, 3, 1],
            chk: 90,
            attrs: 0,
            sels: 2,
            ..plain
        },
        "C03" => Prof {
            ep: SIMPLE,
            max_nodes: 8,
            nodes: [1, 0, 0, 8, 2, 1, 3, 1, 4, 0],
            sels: 95,
            attrs: 3,
            aw: [1, 0, 0, 0, 0, 4, 1, 4, 1, 0, 0, 0, 0, 1],
            dw: [1, 0, 0, 4, 1, 0, 0, 0, 0],
            dirs: 3,
            chk: 30,
            slots: 0,
            ..b
        },
        "C04" => Prof {
            max_nodes: 8,
            nodes: [1, 0, 0, 8, 2, 1, 3, 1, 1, 0],
            sels: 35,
            attrs: 7,
            aw: [1, 1, 1, 0, 1, 4, 4, 8, 8, 1, 1, 1, 0, 1],
            forms: [4, 4, 4, 2, 4, 4],
            slots: 0,
            ..b
        },
        "C05" => Prof {
            max_nodes: 8,
            nodes: [1, 0, 0, 8, 3, 3, 4, 3, 0, 0],
            sels: 10,
            attrs: 7,
            aw: [8, 5, 6, 5, 6, 1, 1, 0, 0, 0, 0, 0, 0, 0],
            forms: [4, 4, 3, 2, 3, 2],
            ..b
        },
        "C06" => Prof {
            ep: ExprProf { depth: 3, log: 60, wild: 8, nasty: 10, plain: false },
            max_nodes: 12,
            nodes: [1, 8, 2, 5, 1, 0, 1, 1, 4, 2],
            forms: [1, 5, 6, 5, 3, 1],
            sels: 5,
            attrs: 4,
            aw: [6, 1, 3, 2, 1, 2, 2, 3, 2, 3, 3, 2, 2, 2],
            props: 5,
            slots: 25,
            dirs: 3,
            ..b
        },
        "C07" => Prof {
            max_nodes: 7,
            nodes: [1, 1, 0, 2, 0, 0, 0, 0, 9, 1],
            sels: 5,
            attrs: 1,
            props: 9,
            chk: 35,
            slots: 5,
            dirs: 1,
            generics: 40,
            paths: 60,
            reuse: 15,
            ..b
        },
        "C08" => Prof {
            ep: ExprProf { depth: 2, log: 25, wild: 8, nasty: 15, plain: false },
            max_nodes: 14,
            nodes: [3, 6, 1, 4, 1, 0, 1, 1, 9, 2],
            sels: 5,
            attrs: 2,
            props: 1,
            chk: 97,
            slots: 8,
            dirs: 1,
            args: 40,
            clones: 45,
            generics: 5,
            paths: 5,
            reuse: 20,
            ..b
        },
        "C09" => Prof {
            max_nodes: 16,
            nodes: [3, 3, 1, 4, 1, 0, 1, 1, 9, 0],
            sels: 3,
            attrs: 1,
            props: 2,
            chk: 75,
            slots: 95,
            dirs: 0,
            args: 30,
            clones: 20,
            generics: 0,
            paths: 5,
            ..b
        },
        "C10" => Prof {
            max_nodes: 6,
            nodes: [1, 1, 0, 3, 0, 0, 1, 0, 9, 0],
            sels: 25,
            attrs: 1,
            props: 2,
            chk: 50,
            slots: 3,
            dirs: 9,
            dw: [3, 2, 2, 4, 4, 3, 3, 3, 1],
            forms: [4, 4, 4, 2, 3, 2],
            generics: 5,
            paths: 5,
            ..b
        },
        "C11" => Prof {
            max_nodes: 7,
            nodes: [1, 0, 0, 9, 2, 1, 3, 2, 1, 0],
            sels: 10,
            attrs: 7,
            aw: [1, 1, 0, 0, 0, 1, 1, 1, 1, 8, 9, 7, 3, 1],
            forms: [4, 4, 4, 2, 3, 2],
            slots: 0,
            ..b
        },
        "C12" => Prof {
            max_nodes: 7,
            nodes: [1, 0, 0, 8, 2, 1, 2, 1, 4, 0],
            sels: 15,
            attrs: 6,
            aw: [2, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 14],
            dirs: 4,
            dw: [2, 1, 1, 2, 2, 1, 1, 1, 12],
            slots: 0,
            ..b
        },
        "C20" => Prof { ep: ExprProf { depth: 0, log: 6, wild: 12, nasty: 10, plain: false }, ..b },
        "C21" => Prof {
            max_nodes: 18,
            nodes: [4, 7, 2, 6, 1, 0, 1, 1, 8, 3],
            sels: 30,
            chk: 90,
            args: 65,
            clones: 35,
            generics: 30,
            paths: 40,
            forms: [3, 6, 4, 3, 1, 1],
            ..b
        },
        "C18" => Prof {
            ep: ExprProf { depth: 2, log: 5, wild: 5, nasty: 75, plain: true },
            max_nodes: 12,
            shadow: true,
            nodes: [3, 4, 1, 6, 1, 1, 2, 1, 6, 1],
            attrs: 5,
            aw: [4, 2, 2, 2, 2, 2, 2, 3, 2, 3, 3, 3, 2, 2],
            slots: 30,
            dirs: 3,
            args: 30,
            clones: 30,
            ..b
        },
        "C19" => Prof {
            attrs: 5,
            aw: [4, 6, 2, 2, 8, 4, 2, 6, 4, 3, 3, 1, 0, 1],
            nodes: [3, 5, 1, 8, 1, 1, 2, 1, 5, 1],
            sels: 45,
            forms: [2, 2, 8, 6, 1, 1],
            props: 5,
            dirs: 4,
            generics: 30,
            chk: 60,
            ..b
        },
        _ => b,
    }
}
