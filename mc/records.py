"""Reference model: every Palworld record kind and world saves holding them."""

import json
import os
import struct

from . import generic as g
from . import ref
from .generic import PROPS, SCHEMAS
from .ref import (
    B32,
    F32,
    F64,
    G0,
    G1,
    G2,
    GUID,
    I32,
    I64,
    PACKED,
    QUAT,
    ROTATOR,
    STR,
    U8,
    U32,
    VEC,
    XFORM,
    Choice,
    Const,
    Lock,
    LockBytes,
    Opt,
    Raw,
    Rec,
    Seq,
    Str,
    T,
)

with open(os.path.join(os.path.dirname(__file__), "format_tables.json")) as f:
    TABLES = json.load(f)
MAP_OBJECTS = TABLES["map_objects"]
HINTS = TABLES["type_hints"]
KINDS = TABLES["kinds"]

W = ".worldSaveData."
K_GROUP = W + "GroupSaveDataMap"
K_CHAR = W + "CharacterSaveParameterMap.Value.RawData"
K_ITEMC = W + "ItemContainerSaveData.Value.RawData"
K_SLOT = W + "ItemContainerSaveData.Value.Slots.Slots.RawData"
K_CCONT = W + "CharacterContainerSaveData.Value.Slots.Slots.RawData"
K_DYN = W + "DynamicItemSaveData.DynamicItemSaveData.RawData"
K_FOL = W + "FoliageGridSaveDataMap.Value.ModelMap.Value.RawData"
K_FOLI = W + "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData"
K_CAMP = W + "BaseCampSaveData.Value.RawData"
K_DIR = W + "BaseCampSaveData.Value.WorkerDirector.RawData"
K_COLL = W + "BaseCampSaveData.Value.WorkCollection.RawData"
K_MOD = W + "BaseCampSaveData.Value.ModuleMap"
K_WORK = W + "WorkSaveData"
K_MAPOBJ = W + "MapObjectSaveData"

# ---------------------------------------------------------------- record schemas

EMPTY_OBJ = (
    (
        "SaveParameter",
        (
            "Struct",
            "PalIndividualCharacterSaveParameter",
            G0,
            None,
            (("Level", ("Int", None, 3)), ("NickName", ("Str", None, "ピカ")), ("Talent", ("Fixed", None, 9))),
        ),
    ),
)


class ObjProps(g.Props):
    default = EMPTY_OBJ


OBJ = ObjProps()
NULL = Const(None)


class RawValues(T):
    """Bytes shown as {"values": [...]}"""

    def __init__(self, default=b"", alts=None):
        self.default = default
        self.alts = alts

    def enc(self, v):
        return v

    def js(self, v):
        return {"values": list(v)}

    def edits(self, v, a):
        if a.grow and self.alts is None:
            yield (), f"{a.grow} bytes", ref.cycle(bytes(range(256)), a.grow)
        if a.grow or not a.wants("raw"):
            return
        alts = self.alts if self.alts is not None else UNKNOWN_BYTES
        for b in alts if a.full else alts[:2]:
            if b != v:
                yield (), b[:8].hex() + f"({len(b)})", b


UNKNOWN_BYTES = [b"\0", b"\xff\x80\x01", bytes(range(256)), bytes(16), b"\x05\0\0\0None\0", b"\xff" * 70, b"\1\0\0\0\2"]
NOTHING = RawValues(b"", [])

DYNID = Rec(("created_world_id", GUID), ("local_id_in_created_world", GUID))
DYNID.default = (G1, G2)
ITEMID = Rec(("static_id", Str("Wood")), ("dynamic_id", DYNID))
ITEMNUM = Rec(("item_id", ITEMID), ("num", U32))
INDIV = Rec(("player_uid", GUID), ("instance_id", GUID))
INDIV.default = (G2, G1)
HANDLE = Rec(("guid", GUID), ("instance_id", GUID))
HANDLE.default = (G1, G2)

SCHEMAS["character"] = Rec(("object", OBJ), ("unknown_bytes", Raw(4)), ("group_id", GUID))

_grp = [("group_id", GUID), ("group_name", Str("grp")), ("individual_character_handle_ids", Seq(HANDLE))]
_org = [("org_type", U8), ("base_ids", Seq(GUID))]
_guild = [
    ("base_camp_level", I32),
    ("map_object_instance_ids_base_camp_points", Seq(GUID)),
    ("guild_name", Str("ギルド")),
]
PINFO = Rec(("last_online_real_time", I64), ("player_name", Str("Plyr")))
PLAYER = Rec(("player_uid", GUID), ("player_info", PINFO))
GROUPS = {
    "EPalGroupType::Guild": _grp + _org + _guild + [("admin_player_uid", GUID), ("players", Seq(PLAYER))],
    "EPalGroupType::IndependentGuild": _grp
    + _org
    + _guild
    + [("player_uid", GUID), ("guild_name_2", Str("g2")), ("player_info", PINFO)],
    "EPalGroupType::Organization": _grp + _org,
    "EPalGroupType::Neutral": _grp,
    "EPalGroupType::Something": _grp,
}
for _n, _f in GROUPS.items():
    SCHEMAS["group " + _n] = Rec(("group_type", Const(_n)), *_f)

PERM = Rec(("type_a", Seq(U8)), ("type_b", Seq(U8)), ("item_static_ids", Seq(Str("Stone"))))
SCHEMAS["item_container"] = Choice(Rec(("permission", PERM)), NULL)
SCHEMAS["item_slot"] = Choice(Rec(("permission", PERM), ("corruption_progress_value", F32)), NULL)
SCHEMAS["character_slot"] = Choice(
    Rec(("player_uid", GUID), ("instance_id", GUID), ("permission_tribe_id", U8)), NULL
)
DYNITEM_ID = Rec(("created_world_id", GUID), ("local_id_in_created_world", GUID), ("static_id", Str("Egg_01")))
SCHEMAS["dynamic_item"] = Choice(
    Rec(
        ("id", DYNITEM_ID),
        ("type", Const("egg")),
        ("character_id", Str("Sheep")),
        ("object", OBJ),
        ("unknown_bytes", Raw(4)),
        ("unknown_id", GUID),
    ),
    Rec(("id", DYNITEM_ID), ("type", Const("armor")), ("durability", F32)),
    Rec(
        ("id", DYNITEM_ID),
        ("type", Const("weapon")),
        ("durability", F32),
        ("remaining_bullets", I32),
        ("passive_skill_list", Seq(Str("Legend"))),
    ),
    Rec(("id", DYNITEM_ID), ("type", Const("unknown")), ("trailer", Raw(None, b"\1\2\3"))),
    NULL,
)
SCHEMAS["foliage_model"] = Rec(
    ("model_id", Str("bush")),
    ("foliage_preset_type", U8),
    ("cell_coord", Rec(("x", I64), ("y", I64), ("z", I64))),
)
SCHEMAS["foliage_instance"] = Rec(
    ("model_instance_id", GUID),
    ("world_transform", Rec(("rotator", ROTATOR), ("location", PACKED), ("scale_x", F32))),
    ("hp", I32),
)
SCHEMAS["base_camp"] = Rec(
    ("id", GUID),
    ("name", Str("camp")),
    ("state", U8),
    ("transform", XFORM),
    ("area_range", F32),
    ("group_id_belong_to", GUID),
    ("fast_travel_local_transform", XFORM),
    ("owner_map_object_instance_id", GUID),
)
SCHEMAS["worker_director"] = Rec(
    ("id", GUID),
    ("spawn_transform", XFORM),
    ("current_order_type", U8),
    ("current_battle_type", U8),
    ("container_id", GUID),
)
SCHEMAS["work_collection"] = Rec(("id", GUID), ("work_ids", Seq(GUID)))

M = "EPalBaseCampModuleType::"
CAMP_MODULES = {
    M + t: Rec()
    for t in ("Energy", "Medical", "ResourceCollector", "ItemStorages", "FacilityReservation", "ObjectMaintenance")
}
CAMP_MODULES[M + "TransportItemDirector"] = Rec(
    ("transport_item_character_infos", Seq(Rec(("item_infos", Seq(ITEMNUM)), ("character_location", VEC))))
)


class Tag(T):
    """A stored byte with one value, shown under its own name."""

    def __init__(self, n):
        self.default = n

    def enc(self, v):
        return bytes([v])


CAMP_MODULES[M + "PassiveEffect"] = Rec(
    (
        "passive_effects",
        Seq(
            Choice(
                Rec(("type", Tag(2)), ("work_hard_type", U8), ("unknown_trailer", Raw(4))),
                Rec(("type", Tag(0))),
                Rec(("type", Tag(1))),
            )
        ),
    )
)
for _n, _t in CAMP_MODULES.items():
    SCHEMAS["module " + _n] = _t
SCHEMAS["raw"] = RawValues(b"\x07\0\xff")
# bytes no decoder of that module kind can read (or read completely)
SCHEMAS["raw noop"] = RawValues(b"\0", UNKNOWN_BYTES)
SCHEMAS["raw transport"] = RawValues(
    b"\1\0\0\0", [b"", b"\0\0\0\0\0", b"\xff" * 40, b"\1\0\0\0\0\0\0\0" + bytes(23), b"\1\0\0\0\0\0\0\0" + bytes(25), b"\0\0\0"]
)
SCHEMAS["raw passive"] = RawValues(
    b"\1\0\0\0\3", [b"", b"\1\0\0\0", b"\0\0\0\0\0", b"\1\0\0\0\0\0", b"\2\0\0\0\2\1\0\0\0\0\x09", b"\xff\xff\xff\xff"]
)

BOUNDS = Rec(
    ("location", VEC),
    ("rotation", QUAT),
    ("box_sphere_bounds", Rec(("origin", VEC), ("box_extent", VEC), ("sphere_radius", F64))),
)
ASSIGN_LOC = Rec(("location", VEC), ("facing_direction", VEC))


class Merge(T):
    """{'transform': ...}: type byte, then the layout of that type."""


TRANSFORM = Choice(
    Rec(("type", Tag(1)), ("v2", Const(0)), (None, XFORM)),
    Rec(("type", Tag(2)), ("v2", Const(0)), ("map_object_instance_id", GUID)),
    Rec(("type", Tag(3)), ("v2", Const(0)), ("guid", GUID), ("instance_id", GUID)),
    Rec(("type", Tag(0)), ("v2", Const(0)), ("raw_data", Raw(None, b""))),
    Rec(("type", Tag(4)), ("v2", Const(0)), ("raw_data", Raw(None, b"\1\2"))),
    Rec(("type", Tag(255)), ("v2", Const(0)), ("raw_data", Raw(None, b"\xff"))),
)
KNOWN_TRANSFORMS = 3
_base = [
    ("id", GUID),
    ("workable_bounds", BOUNDS),
    ("base_camp_id_belong_to", GUID),
    ("owner_map_object_model_id", GUID),
    ("owner_map_object_concrete_model_id", GUID),
    ("current_state", U8),
    ("assign_locations", Seq(ASSIGN_LOC)),
    ("behaviour_type", U8),
    ("assign_define_data_id", Str("Define")),
    ("override_work_type", U8),
    ("assignable_fixed_type", U8),
    ("assignable_otomo", B32),
    ("can_trigger_worker_event", B32),
    ("can_steal_assign", B32),
]
WT = "EPalWorkableType::"
WORKS = {
    WT + t: list(_base)
    for t in (
        "Progress",
        "TransportItemInBaseCamp",
        "ReviveCharacter",
        "LevelObject",
        "Repair",
        "Defense",
        "BootUp",
        "OnlyJoin",
        "OnlyJoinAndWalkAround",
        "RemoveMapObjectEffect",
        "MonsterFarm",
    )
}
WORKS[WT + "Defense"] += [("defense_combat_type", U8)]
WORKS[WT + "Progress"] += [
    ("required_work_amount", F32),
    ("work_exp", I32),
    ("current_work_amount", F32),
    ("auto_work_self_amount_by_sec", F32),
]
WORKS[WT + "ReviveCharacter"] += [("target_individual_id", INDIV)]
_assign = [
    ("location_index", I32),
    ("assign_type", U8),
    ("assigned_individual_id", INDIV),
    ("state", U8),
]
WORKS[WT + "Assign"] = [("handle_id", GUID)] + _assign + [("fixed", U32)]
for _n, _f in WORKS.items():
    SCHEMAS["work " + _n] = Rec(*_f, ("transform", TRANSFORM))
UNKNOWN_WORKS = [WT + t for t in ("Illegal", "CollectItem", "TransportItem", "CollectResource", "BrandNew")]
SCHEMAS["work_assign"] = Rec(("id", GUID), *_assign, ("fixed", B32))

SCHEMAS["map_model"] = Rec(
    ("instance_id", GUID),
    ("concrete_model_instance_id", GUID),
    ("base_camp_id_belong_to", GUID),
    ("group_id_belong_to", GUID),
    ("hp", Rec(("current", I32), ("max", I32))),
    ("initital_transform_cache", XFORM),
    ("repair_work_id", GUID),
    ("owner_spawner_level_object_instance_id", GUID),
    ("owner_instance_id", GUID),
    ("build_player_uid", GUID),
    ("interact_restrict_type", U8),
    ("stage_instance_id_belong_to", Rec(("id", GUID), ("valid", B32))),
    ("created_at", I64),
)
SCHEMAS["build_process"] = Rec(("state", U8), ("id", GUID))
CONNECT_ITEM = Rec(("connect_to_model_instance_id", GUID), ("index", U8))
OTHER = Rec(("index", U8), ("connect", Seq(CONNECT_ITEM)))


class OtherConnectors(T):
    """Connectors up to the end of the record; absent when there are none."""

    default = ()

    def enc(self, v):
        return b"".join(OTHER.enc(x) for x in v)

    def js(self, v):
        return {"other_connectors": [OTHER.js(x) for x in v]} if v else {}

    def edits(self, v, a):
        if not v:
            if a.grow:
                yield from ref.list_edits(v, OTHER.edits, (OTHER.default,), a, 5)
            if not a.wants("list"):
                return
            for n in (1, 2, 3, 4, 5) if a.full else (2, 4):
                yield (0,), f"{n} connectors", ((7, ()),) + (OTHER.default,) * (n - 1)
        else:
            yield from ref.list_edits(v, OTHER.edits, (OTHER.default,), a, 5)


_conn = Rec(
    ("supported_level", I32),
    ("connect", Rec(("index", U8), ("any_place", Seq(CONNECT_ITEM)))),
    (None, OtherConnectors()),
)
SCHEMAS["connector"] = Choice(_conn, NOTHING)


class StateMachine(Opt):
    pass


_ids = [("instance_id", GUID), ("model_instance_id", GUID)]
P = "PalMapObject"
CONCRETE = {c: [] for c in TABLES["no_data_classes"]}
CONCRETE.update(
    {
        P + "DeathDroppedCharacterModel": [("stored_parameter_id", GUID), ("owner_player_uid", GUID)],
        P
        + "ConvertItemModel": [
            ("current_recipe_id", Str("Plank")),
            ("remain_product_num", I32),
            ("requested_product_num", I32),
            ("work_speed_additional_rate", F32),
        ],
        P + "PickupItemOnLevelModel": [("auto_picked_up", B32)],
        P + "DropItemModel": [("auto_picked_up", B32), ("item_id", ITEMID)],
        P + "ItemDropOnDamagModel": [("drop_item_infos", Seq(ITEMNUM))],
        P + "DeathPenaltyStorageModel": [("owner_player_uid", GUID)],
        P
        + "DefenseBulletLauncherModel": [
            ("remaining_bullets", I32),
            ("magazine_size", I32),
            ("bullet_item_name", Str("Arrow")),
        ],
        P + "GenerateEnergyModel": [("stored_energy_amount", F32)],
        P
        + "FarmBlockV2Model": [
            ("crop_data_id", Str("Berries")),
            ("current_state", U8),
            ("crop_progress_rate_value", F32),
            ("water_stack_rate_value", F32),
            (
                None,
                Opt("state_machine", Rec(("growup_required_time", F32), ("growup_progress_time", F32))),
            ),
        ],
        P + "FastTravelPointModel": [("location_instance_id", GUID)],
        P + "ShippingItemModel": [("shipping_hours", Seq(I32))],
        P + "ProductItemModel": [("work_speed_additional_rate", F32), ("product_item_id", Str("Ore"))],
        P + "RecoverOtomoModel": [("recover_amount_by_sec", F32)],
        P
        + "HatchingEggModel": [
            ("hatched_character_save_parameter", OBJ),
            ("unknown_bytes", U32),
            ("hatched_character_guid", GUID),
        ],
        P + "TreasureBoxModel": [("treasure_grade_type", U8)],
        P + "BreedFarmModel": [("spawned_egg_instance_ids", Seq(GUID))],
        P + "SignboardModel": [("signboard_text", Str("看板"))],
        P + "TorchModel": [("extinction_date_time", I64)],
        P + "PalEggModel": [("unknown_bytes", U32)],
        P + "BaseCampPoint": [("base_camp_id", GUID)],
    }
)
UNKNOWN_CLASSES = {c for c in MAP_OBJECTS.values() if c not in CONCRETE}
for _n, _f in CONCRETE.items():
    SCHEMAS["concrete " + _n] = Rec(*_ids, ("concrete_model_type", Const(_n)), *_f)
# known object names whose class has no decoder: any bytes long enough to hold the ids
SCHEMAS["raw concrete"] = RawValues(
    bytes(32) + b"\1", [bytes(32), bytes(range(256)), bytes(32) + b"\x05\0\0\0None\0", b"\xff" * 40]
)
SCHEMAS["nothing"] = NOTHING

MM = "EPalMapObjectConcreteModelModuleType::"
MAP_MODULES = {
    MM
    + "ItemContainer": Rec(
        ("target_container_id", GUID),
        ("slot_attribute_indexes", Seq(Rec(("attribute", U8), ("indexes", Seq(I32))))),
        ("all_slot_attribute", Seq(U8)),
        ("drop_item_at_disposed", B32),
        ("usage_type", U8),
    ),
    MM + "CharacterContainer": Rec(("target_container_id", GUID)),
    MM + "Workee": Rec(("target_work_id", GUID)),
    MM + "Switch": Rec(("switch_state", U8)),
    MM
    + "PasswordLock": Rec(
        ("lock_state", U8),
        ("password", Str("1234")),
        ("player_infos", Seq(Rec(("player_uid", GUID), ("try_failed_count", I32), ("try_success_cache", B32)))),
    ),
}
EMPTY_MAP_MODULES = [
    MM + t
    for t in ("None", "Energy", "StatusObserver", "ItemStack", "PlayerRecord", "BaseCampPassiveEffect", "BrandNew")
]
for _n, _t in MAP_MODULES.items():
    SCHEMAS["mapmodule " + _n] = Choice(_t, NOTHING)

# ---------------------------------------------------------------- property builders


def L(*pairs):
    """Properties whose names the layout depends on."""
    return tuple((Lock(n), p) for n, p in pairs)


def S(stype, *pairs):
    return ("Struct", Lock(stype), G0, None, L(*pairs))


def sguid(b=G1):
    return ("Struct", "Guid", G0, None, b)


def blob(gov, schema, value=None, own=True):
    return ("Blob", None, gov, own, schema, SCHEMAS[schema].default if value is None else value)


def smap(path, kt, vt, entries):
    ks = HINTS.get(path + ".Key", "Guid") if kt == "StructProperty" else None
    vs = HINTS.get(path + ".Value", "StructProperty") if vt == "StructProperty" else None
    return ("Map", None, Lock(kt), Lock(vt), ks and Lock(ks), vs and Lock(vs), tuple(entries))


def sarr(prop_name, type_name, vals):
    return ("ArrStruct", None, Lock(prop_name), "StructProperty", Lock(type_name), G0, tuple(vals))


def world(*pairs, trailer=bytes(4), header=None):
    return g.doc((("Version", ("Int", None, 100)),) + L(("worldSaveData", S("PalWorldSaveData", *pairs))), trailer, header)


SP, EP, NP, IP = "StructProperty", "EnumProperty", "NameProperty", "IntProperty"


def characters(*values):
    key = L(("PlayerUId", sguid()), ("InstanceId", sguid(G2)), ("DebugName", ("Str", None, "")))
    return (
        "CharacterSaveParameterMap",
        smap(
            W + "CharacterSaveParameterMap",
            SP,
            SP,
            [(key, L(("RawData", blob(K_CHAR, "character", v)))) for v in values or (None,)],
        ),
    )


def groups(*items):
    """items: (group_type, value or None)"""
    return (
        "GroupSaveDataMap",
        (
            "Custom",
            K_GROUP,
            smap(
                K_GROUP,
                SP,
                SP,
                [
                    (
                        G1,
                        L(
                            ("GroupType", ("Enum", None, "EPalGroupType", Lock(t))),
                            ("RawData", blob(K_GROUP, "group " + t, v, own=False)),
                        ),
                    )
                    for t, v in items
                ],
            ),
        ),
    )


def item_containers(container=None, slots=(None,), n=1):
    slot = lambda v: L(
        ("SlotIndex", ("Int", None, 0)),
        (
            "ItemId",
            S(
                "PalItemId",
                ("StaticId", ("Name", None, "Wood")),
                ("DynamicId", S("PalDynamicItemId", ("CreatedWorldId", sguid()), ("LocalIdInCreatedWorld", sguid(G2)))),
            ),
        ),
        ("StackCount", ("Int", None, 5)),
        ("RawData", blob(K_SLOT, "item_slot", v)),
    )
    return (
        "ItemContainerSaveData",
        smap(
            W + "ItemContainerSaveData",
            SP,
            SP,
            [
                (
                    L(("ID", sguid())),
                    L(
                        ("BelongInfo", S("PalItemContainerBelongInfo", ("GroupID", sguid(G2)))),
                        ("SlotNum", ("Int", None, 4)),
                        ("Slots", sarr("Slots", "PalItemSlotSaveData", [slot(v) for v in slots])),
                        ("RawData", blob(K_ITEMC, "item_container", container)),
                    ),
                )
            ]
            * n,
        ),
    )


def character_containers(slots=(None,), raw=b""):
    slot = lambda v: L(
        ("SlotIndex", ("Int", None, 0)),
        ("IndividualId", S("PalInstanceID", ("PlayerUId", sguid()), ("InstanceId", sguid(G2)))),
        ("PermissionTribeID", ("Enum", None, "EPalTribeID", "EPalTribeID::None")),
        ("RawData", blob(K_CCONT, "character_slot", v)),
    )
    return (
        "CharacterContainerSaveData",
        smap(
            W + "CharacterContainerSaveData",
            SP,
            SP,
            [
                (
                    L(("ID", sguid())),
                    L(
                        ("bReferenceSlot", ("Bool", None, 0)),
                        ("Slots", sarr("Slots", "PalCharacterSlotSaveData", [slot(v) for v in slots])),
                        ("RawData", ("Bytes", None, raw)),
                    ),
                )
            ],
        ),
    )


def dynamic_items(*values):
    return (
        "DynamicItemSaveData",
        sarr(
            "DynamicItemSaveData",
            "PalDynamicItemSaveData",
            [
                L(
                    ("ID", S("PalDynamicItemId", ("CreatedWorldId", sguid()))),
                    ("StaticItemId", ("Name", None, "Egg")),
                    ("RawData", blob(K_DYN, "dynamic_item", v)),
                )
                for v in values or (None,)
            ],
        ),
    )


def foliage(model=None, instances=(None,)):
    base = W + "FoliageGridSaveDataMap"
    inst = smap(
        base + ".Value.ModelMap.Value.InstanceDataMap",
        SP,
        SP,
        [(L(("Guid", sguid())), L(("RawData", blob(K_FOLI, "foliage_instance", v)))) for v in instances],
    )
    models = smap(
        base + ".Value.ModelMap",
        NP,
        SP,
        [("bush01", L(("InstanceDataMap", inst), ("RawData", blob(K_FOL, "foliage_model", model))))],
    )
    coord = L(("X", ("Int64", None, -3)), ("Y", ("Int64", None, 0)), ("Z", ("Int64", None, 1 << 34)))
    return ("FoliageGridSaveDataMap", smap(base, SP, SP, [(coord, L(("ModelMap", models)))]))


def base_camps(modules=(), camp=None, director=None, collection=None):
    """modules: (type, schema, value)"""
    mods = (
        "Custom",
        K_MOD,
        smap(K_MOD, EP, SP, [(Lock(t), L(("RawData", blob(K_MOD, s, v, own=False)))) for t, s, v in modules]),
    )
    return (
        "BaseCampSaveData",
        smap(
            W + "BaseCampSaveData",
            SP,
            SP,
            [
                (
                    G1,
                    L(
                        ("WorkerDirector", S("PalWorkerDirectorSaveData", ("RawData", blob(K_DIR, "worker_director", director)))),
                        ("WorkCollection", S("PalWorkCollectionSaveData", ("RawData", blob(K_COLL, "work_collection", collection)))),
                        ("ModuleMap", mods),
                        ("RawData", blob(K_CAMP, "base_camp", camp)),
                    ),
                )
            ],
        ),
    )


def works(*items):
    """items: (workable_type, schema, value, assigns)"""
    return (
        "WorkSaveData",
        (
            "Custom",
            K_WORK,
            sarr(
                "WorkSaveData",
                "PalWorkSaveData",
                [
                    L(
                        ("WorkableType", ("Enum", None, "EPalWorkableType", Lock(t))),
                        (
                            "WorkAssignMap",
                            smap(
                                W + "WorkSaveData.WorkSaveData.WorkAssignMap",
                                IP,
                                SP,
                                [(i, L(("RawData", blob(K_WORK, "work_assign", x, own=False)))) for i, x in enumerate(assigns)],
                            ),
                        ),
                        ("RawData", blob(K_WORK, s, v, own=False)),
                    )
                    for t, s, v, assigns in items
                ],
            ),
        ),
    )


def map_object(
    name="Torch_NoSuch",
    concrete=None,
    modules=(),
    model=None,
    connector=None,
    build=None,
    effects=(),
):
    """concrete: (schema, value); modules: (type, schema, value)"""
    cls = MAP_OBJECTS.get(name.lower())
    if concrete is None:
        if cls is None:
            concrete = ("raw", None)
        elif cls in CONCRETE:
            concrete = ("concrete " + cls, None)
        else:
            concrete = ("raw concrete", None)
    base = W + "MapObjectSaveData.MapObjectSaveData"
    b = lambda s, v: blob(K_MAPOBJ, s, v, own=False)
    return L(
        ("WorldLocation", ("Struct", "Vector", G0, None, VEC.default)),
        ("WorldRotation", ("Struct", "Quat", G0, None, QUAT.default)),
        ("WorldScale3D", ("Struct", "Vector", G0, None, (0x3FF0000000000000,) * 3)),
        ("MapObjectId", ("Name", None, Lock(name))),
        ("MapObjectInstanceId", sguid()),
        (
            "Model",
            S(
                "PalMapObjectModelSaveData",
                ("BuildProcess", S("PalMapObjectBuildProcessSaveData", ("RawData", b("build_process", build)))),
                ("Connector", S("PalMapObjectConnectorSaveData", ("RawData", b("connector", connector)))),
                (
                    "EffectMap",
                    smap(base + ".Model.EffectMap", EP, SP, [(e, L(("RawData", ("Bytes", None, b"\1\2")))) for e in effects]),
                ),
                ("RawData", b("map_model", model)),
            ),
        ),
        (
            "ConcreteModel",
            S(
                "PalMapObjectConcreteModelSaveData",
                (
                    "ModuleMap",
                    smap(
                        base + ".ConcreteModel.ModuleMap",
                        EP,
                        SP,
                        [(Lock(t), L(("RawData", b(s, v)))) for t, s, v in modules],
                    ),
                ),
                ("RawData", b(*concrete)),
            ),
        ),
    )


def map_objects(*objs):
    return ("MapObjectSaveData", ("Custom", K_MAPOBJ, sarr("MapObjectSaveData", "PalMapObjectSaveData", objs)))


def spawners():
    base = W + "MapObjectSpawnerInStageSaveData"
    items = smap(
        base + ".Value.SpawnerDataMapByLevelObjectInstanceId.Value.ItemMap",
        IP,
        SP,
        [(0, L(("NextLotteryGameTime", ("Int64", None, 9)), ("MapObjectInstanceId", sguid())))],
    )
    sp = smap(base + ".Value.SpawnerDataMapByLevelObjectInstanceId", SP, SP, [(G2, L(("ItemMap", items)))])
    return (
        "MapObjectSpawnerInStageSaveData",
        smap(
            base,
            SP,
            SP,
            [(L(("InternalId", sguid()), ("bValid", ("Bool", None, 1))), L(("SpawnerDataMapByLevelObjectInstanceId", sp)))],
        ),
    )


def enemy_camps():
    return (
        "EnemyCampSaveData",
        S(
            "PalEnemyCampSaveData",
            (
                "EnemyCampStatusMap",
                smap(
                    W + "EnemyCampSaveData.EnemyCampStatusMap",
                    NP,
                    SP,
                    [("camp1", L(("bIsSpawned", ("Bool", None, 0)), ("ElapsedTime", ("Float", None, F32.default))))],
                ),
            ),
        ),
    )


def dungeons():
    """Map objects inside a dungeon: same layout, but the tool leaves their records raw."""
    base = W + "DungeonSaveData.DungeonSaveData.MapObjectSaveData.MapObjectSaveData"
    obj = L(
        ("MapObjectId", ("Name", None, "ItemChest")),
        (
            "Model",
            S(
                "PalMapObjectModelSaveData",
                ("EffectMap", smap(base + ".Model.EffectMap", EP, SP, [("E::A", L(("RawData", ("Bytes", None, b"\1"))))])),
                ("RawData", ("Bytes", None, b"\2\3")),
            ),
        ),
        (
            "ConcreteModel",
            S(
                "PalMapObjectConcreteModelSaveData",
                (
                    "ModuleMap",
                    smap(base + ".ConcreteModel.ModuleMap", EP, SP, [("E::B", L(("RawData", ("Bytes", None, b"\4"))))]),
                ),
                ("RawData", ("Bytes", None, b"")),
            ),
        ),
    )
    return (
        "DungeonSaveData",
        sarr(
            "DungeonSaveData",
            "PalDungeonSaveData",
            [L(("InstanceId", sguid()), ("MapObjectSaveData", sarr("MapObjectSaveData", "PalMapObjectSaveData", [obj])))],
        ),
    )


# ---------------------------------------------------------------- base states


def record_bases(unknown=False):
    """Every record kind in every variant, each in a world save of its own.

    Yields (family, label, document); documents of one family are variants of each other.
    With `unknown`, the data the tool has no decoder for instead.
    """
    if not unknown:
        yield "character", "character", world(characters())
        for t in GROUPS:
            yield "group", t, world(groups((t, None)))
        ic = SCHEMAS["item_container"]
        for i in range(2):
            yield "item_container", f"container{i}", world(item_containers((i, ic.alts[i].default)))
            yield "item_slot", f"slot{i}", world(item_containers(None, ((i, SCHEMAS["item_slot"].alts[i].default),)))
            yield "character_slot", f"slot{i}", world(
                character_containers(((i, SCHEMAS["character_slot"].alts[i].default),))
            )
        for i, alt in enumerate(SCHEMAS["dynamic_item"].alts):
            if i != 3:
                yield "dynamic_item", f"item{i}", world(dynamic_items((i, alt.default)))
        yield "foliage", "foliage", world(foliage())
        yield "base_camp", "base_camp", world(base_camps())
        for t in CAMP_MODULES:
            yield "camp_module", t, world(base_camps([(t, "module " + t, None)]))
        for t in WORKS:
            for j in range(KNOWN_TRANSFORMS):
                v = list(SCHEMAS["work " + t].default)
                v[-1] = (j, TRANSFORM.alts[j].default)
                yield "work", f"{t} transform {j + 1}", world(works((t, "work " + t, tuple(v), (None,) if j == 0 else ())))
        done = set()
        for name, cls in MAP_OBJECTS.items():
            if cls in CONCRETE and cls not in done:
                done.add(cls)
                yield "map_object", f"{name} {cls}", world(map_objects(map_object(name)))
        # classes the tool decodes although no known object has them
        yield "map_object_empty", "empty", world(map_objects(map_object("Torch", ("nothing", b""))))
        yield "connector", "no connector", world(map_objects(map_object("Torch", connector=(1, b""))))
        for n in (1, 2, 4):
            v = (0, (3, (1, (CONNECT_ITEM.default,)), ((7, ()),) + (OTHER.default,) * (n - 1)))
            yield "connector", f"{n} connectors", world(map_objects(map_object("Torch", connector=v)))
        for t in MAP_MODULES:
            yield "map_module", t, world(map_objects(map_object("Torch", modules=[(t, "mapmodule " + t, None)])))
        for t in EMPTY_MAP_MODULES:
            yield "map_module", t, world(map_objects(map_object("Torch", modules=[(t, "nothing", b"")])))
    else:
        for i, alt in enumerate(SCHEMAS["dynamic_item"].alts):
            if i == 3:
                yield "dynamic_item", "unknown layout", world(dynamic_items((i, alt.default)))
        for t in UNKNOWN_WORKS:
            yield "work", t, world(works((t, "raw", None, (None,))))
            yield "work", t + " empty", world(works((t, "raw", b"", ())))
        for t in WORKS:
            for j in range(KNOWN_TRANSFORMS, len(TRANSFORM.alts)):
                v = list(SCHEMAS["work " + t].default)
                v[-1] = (j, TRANSFORM.alts[j].default)
                yield "work", f"{t} transform {TRANSFORM.alts[j].default[0]}", world(works((t, "work " + t, tuple(v), ())))
        for t in CAMP_MODULES:
            if t.endswith("TransportItemDirector"):
                s = "raw transport"
            elif t.endswith("PassiveEffect"):
                s = "raw passive"
            else:
                s = "raw noop"
            yield "camp_module", t + " undecodable", world(base_camps([(t, s, None)]))
        for t in ("BrandNew", "", "Energyy"):
            yield "camp_module", M + t, world(base_camps([(M + t, "raw", None)]))
        for n in ("BrandNewThing", "", "itemchest_", "\u0130temchest", "日本"):
            yield "map_object", n, world(map_objects(map_object(n)))
        for cls in sorted(UNKNOWN_CLASSES):
            for n in sorted(k for k, c in MAP_OBJECTS.items() if c == cls):
                yield "map_object", n, world(map_objects(map_object(n)))
        yield "blob", "character container", world(character_containers(raw=b"\1\2\3"))
        yield "blob", "dungeon", world(dungeons())


def case_variants(name):
    """The letter cases a map object name may be written in."""
    out = {name, name.upper(), name.title(), name.capitalize(), name.swapcase()}
    out.add("".join(c.upper() if i % 2 else c for i, c in enumerate(name)))
    return sorted(out)


def table_bases():
    """Every known map object name in several letter cases."""
    for name in MAP_OBJECTS:
        for n in case_variants(name):
            yield n, world(map_objects(map_object(n)))


def location_bases():
    """A map at every location with a known type, and the neighbouring documents."""
    yield "characters", world(characters())
    yield "groups", world(groups(("EPalGroupType::Neutral", None)))
    yield "items", world(item_containers())
    yield "character containers", world(character_containers())
    yield "foliage", world(foliage())
    yield "base camps", world(base_camps([(M + "Energy", "module " + M + "Energy", None)]))
    yield "works", world(works((WT + "Repair", "work " + WT + "Repair", None, (None,))))
    yield "map objects", world(
        map_objects(map_object("Torch", modules=[(MM + "Switch", "mapmodule " + MM + "Switch", None)], effects=("E::A", "E::B")))
    )
    yield "spawners", world(spawners())
    yield "enemy camps", world(enemy_camps())
    yield "dungeons", world(dungeons())


def carriers(props):
    """(label, what goes into a world) for every kind of record that holds properties of its own."""
    yield "character", characters((props, b"\0\1\2\3", bytes(range(16))))
    yield "egg", dynamic_items((0, with_props(SCHEMAS["dynamic_item"].alts[0].default, props)))
    cls = "concrete " + P + "HatchingEggModel"
    name = next(n for n, c in MAP_OBJECTS.items() if "concrete " + c == cls)
    yield "hatching egg", map_objects(map_object(name, (cls, with_props(SCHEMAS[cls].default, props))))


def with_props(v, props):
    """The record v with its properties replaced."""
    if v == OBJ.default:
        return props
    return tuple(with_props(x, props) if isinstance(x, tuple) else x for x in v)


def nested(d):
    """The world d inside the properties of each record that has some, where the same names hold the same data."""
    for lab, x in carriers(d[1]):
        yield lab, world(x)


def all_kinds():
    """One world save with every decodable kind in it, with neighbours."""
    return world(
        characters(None, None),
        groups(("EPalGroupType::Guild", None), ("EPalGroupType::Neutral", None)),
        item_containers(None, (None, (1, None))),
        character_containers((None, (1, None)), b"\5"),
        dynamic_items((0, SCHEMAS["dynamic_item"].alts[0].default), (1, SCHEMAS["dynamic_item"].alts[1].default)),
        foliage(None, (None, None)),
        base_camps(
            [
                (M + "Energy", "module " + M + "Energy", None),
                (M + "PassiveEffect", "module " + M + "PassiveEffect", None),
                (M + "TransportItemDirector", "module " + M + "TransportItemDirector", None),
            ]
        ),
        works((WT + "Progress", "work " + WT + "Progress", None, (None, None)), (WT + "Assign", "work " + WT + "Assign", None, ())),
        map_objects(
            map_object("Torch", modules=[(MM + "ItemContainer", "mapmodule " + MM + "ItemContainer", None)], effects=("E::A",)),
            map_object("HatchingPalEgg"),
            map_object("NoSuchThing"),
        ),
        spawners(),
        enemy_camps(),
        dungeons(),
        ("GameTimeSaveData", S("PalGameTimeSaveData", ("GameDateTimeTicks", ("Int64", None, 5)))),
    )


def compact_all_kinds():
    """As all_kinds, smallest: one record of every kind."""
    return world(
        characters(),
        groups(("EPalGroupType::Neutral", None)),
        item_containers(),
        character_containers(),
        dynamic_items((1, SCHEMAS["dynamic_item"].alts[1].default)),
        foliage(),
        base_camps([(M + "PassiveEffect", "module " + M + "PassiveEffect", None)]),
        works((WT + "Repair", "work " + WT + "Repair", None, (None,))),
        map_objects(map_object("Torch", modules=[(MM + "Switch", "mapmodule " + MM + "Switch", None)])),
    )
