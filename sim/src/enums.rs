//! The values of every enumeration of the API with the spelling the standard (or, where the library
//! deviates on purpose of its own tests, the library) gives them. Written down here, so that a changed
//! spelling is seen.

use crate::entity::B;
use crate::step::Node;
use ifc_rs::prelude::*;

pub fn geometric_projection(b: &mut B) -> (GeometricProjection, Node) {
    let (v, t) = match b.r.below(9) {
        0 => (GeometricProjection::GraphView, "GRAPH_VIEW"),
        1 => (GeometricProjection::SketchView, "SKETCH_VIEW"),
        2 => (GeometricProjection::ModelView, "MODEL_VIEW"),
        3 => (GeometricProjection::PlanView, "PLAN_VIEW"),
        4 => (GeometricProjection::ReflectedPlanView, "REFLECTED_PLAN_VIEW"),
        5 => (GeometricProjection::SectionView, "SECTION_VIEW"),
        6 => (GeometricProjection::ElevationView, "ELEVATION_VIEW"),
        7 => (GeometricProjection::UserDefined, "USERDEFINED"),
        _ => (GeometricProjection::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn profile_type(b: &mut B) -> (ProfileType, Node) {
    let (v, t) = match b.r.below(2) {
        0 => (ProfileType::Curve, "CURVE"),
        _ => (ProfileType::Area, "AREA"),
    };
    (v, Node::Enum(t.into()))
}

pub fn representation_identifier(b: &mut B) -> (RepresentationIdentifier, Node) {
    let (v, t) = match b.r.below(12) {
        0 => (RepresentationIdentifier::CoG, "CoG"),
        1 => (RepresentationIdentifier::Box, "Box"),
        2 => (RepresentationIdentifier::Annotation, "Annotation"),
        3 => (RepresentationIdentifier::Axis, "Axis"),
        4 => (RepresentationIdentifier::FootPrint, "FootPrint"),
        5 => (RepresentationIdentifier::Profile, "Profile"),
        6 => (RepresentationIdentifier::Surface, "Surface"),
        7 => (RepresentationIdentifier::Reference, "Reference"),
        8 => (RepresentationIdentifier::Body, "Body"),
        9 => (RepresentationIdentifier::BodyFallBack, "Body-FallBack"),
        10 => (RepresentationIdentifier::Clearance, "Clearance"),
        _ => (RepresentationIdentifier::Lighting, "Lighting"),
    };
    (v, Node::Str(t.into()))
}

pub fn representation_type(b: &mut B) -> (RepresentationType, Node) {
    let (v, t) = match b.r.below(29) {
        0 => (RepresentationType::Point, "Point"),
        1 => (RepresentationType::PointCloud, "PointCloud"),
        2 => (RepresentationType::Curve, "Curve"),
        3 => (RepresentationType::Curve2D, "Curve2D"),
        4 => (RepresentationType::Curve3D, "Curve3D"),
        5 => (RepresentationType::Surface, "Surface"),
        6 => (RepresentationType::Surface2D, "Surface2D"),
        7 => (RepresentationType::Surface3D, "Surface3D"),
        8 => (RepresentationType::SectionedSurface, "SectionedSurface"),
        9 => (RepresentationType::FillArea, "FillArea"),
        10 => (RepresentationType::Text, "Text"),
        11 => (RepresentationType::AdvancedSurface, "AdvancedSurface"),
        12 => (RepresentationType::GeometricSet, "GeometricSet"),
        13 => (RepresentationType::GeometricCurveSet, "GeometricCurveSet"),
        14 => (RepresentationType::Annotation2D, "Annotation2D"),
        15 => (RepresentationType::SurfaceModel, "SurfaceModel"),
        16 => (RepresentationType::Tessellation, "Tessellation"),
        17 => (RepresentationType::Segment, "Segment"),
        18 => (RepresentationType::SolidModel, "SolidModel"),
        19 => (RepresentationType::SweptSolid, "SweptSolid"),
        20 => (RepresentationType::AdvancedSweptSolid, "AdvancedSweptSolid"),
        21 => (RepresentationType::Brep, "Brep"),
        22 => (RepresentationType::AdvancedBrep, "AdvancedBrep"),
        23 => (RepresentationType::CSG, "CSG"),
        24 => (RepresentationType::Clipping, "Clipping"),
        25 => (RepresentationType::BoundingBox, "BoundingBox"),
        26 => (RepresentationType::SectionedSpine, "SectionedSpine"),
        27 => (RepresentationType::LightSource, "LightSource"),
        _ => (RepresentationType::MappedRepresentation, "MappedRepresentation"),
    };
    (v, Node::Str(t.into()))
}

pub fn direction_sense_enum(b: &mut B) -> (DirectionSenseEnum, Node) {
    let (v, t) = match b.r.below(2) {
        0 => (DirectionSenseEnum::Positive, "POSITIVE"),
        _ => (DirectionSenseEnum::Negative, "NEGATIVE"),
    };
    (v, Node::Enum(t.into()))
}

pub fn layer_set_direction_enum(b: &mut B) -> (LayerSetDirectionEnum, Node) {
    let (v, t) = match b.r.below(3) {
        0 => (LayerSetDirectionEnum::Axis1, "AXIS1"),
        1 => (LayerSetDirectionEnum::Axis2, "AXIS2"),
        _ => (LayerSetDirectionEnum::Axis3, "AXIS3"),
    };
    (v, Node::Enum(t.into()))
}

pub fn access_state(b: &mut B) -> (AccessState, Node) {
    let (v, t) = match b.r.below(5) {
        0 => (AccessState::ReadWrite, "READWRITE"),
        1 => (AccessState::ReadOnly, "READONLY"),
        2 => (AccessState::Locked, "LOCKED"),
        3 => (AccessState::ReadWriteLocked, "READWRITELOCKED"),
        _ => (AccessState::ReadOnlyLocked, "READONLYLOCKED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn role(b: &mut B) -> (Role, Node) {
    let (v, t) = match b.r.below(23) {
        0 => (Role::Supplier, "SUPPLIER"),
        1 => (Role::Manufacturer, "MANUFACTURER"),
        2 => (Role::Contractor, "CONTRACTOR"),
        3 => (Role::Subcontractor, "SUBCONTRACTOR"),
        4 => (Role::Architect, "ARCHITECT"),
        5 => (Role::StructuralEngineer, "STRUCTURALENGINEER"),
        6 => (Role::CostEngineer, "COSTENGINEER"),
        7 => (Role::Clien, "CLIENT"),
        8 => (Role::BuildingOwner, "BUILDINGOWNER"),
        9 => (Role::BuildingOperator, "BUILDINGOPERATOR"),
        10 => (Role::MechanicalEngineer, "MECHANICALENGINEER"),
        11 => (Role::ElectricalEngineer, "ELECTRICALENGINEER"),
        12 => (Role::ProjectManager, "PROJECTMANAGER"),
        13 => (Role::FacilitiesManager, "FACILITIESMANAGER"),
        14 => (Role::CivilEngineer, "CIVILENGINEER"),
        15 => (Role::ComissionEngineer, "COMMISSIONINGENGINEER"),
        16 => (Role::Engineer, "ENGINEER"),
        17 => (Role::Owner, "OWNER"),
        18 => (Role::Consultant, "CONSULTANT"),
        19 => (Role::ConstructionManager, "CONSTRUCTIONMANAGER"),
        20 => (Role::FieldConstructionManager, "FIELDCONSTRUCTIONMANAGER"),
        21 => (Role::Reseller, "RESELLER"),
        _ => (Role::UserDefined, "USERDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn change_action(b: &mut B) -> (ChangeAction, Node) {
    let (v, t) = match b.r.below(6) {
        0 => (ChangeAction::NoChange, "NOCHANGE"),
        1 => (ChangeAction::Modified, "MODIFIED"),
        2 => (ChangeAction::Added, "ADDED"),
        3 => (ChangeAction::Deleted, "DELETED"),
        4 => (ChangeAction::ModifiedAdded, "MODIFIEDADDED"),
        _ => (ChangeAction::ModifiedDeleted, "MODIFIEDDELETED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn door_operation_type_enum(b: &mut B) -> (DoorOperationTypeEnum, Node) {
    let (v, t) = match b.r.below(20) {
        0 => (DoorOperationTypeEnum::SingleSwingLeft, "SINGLE_SWING_LEFT"),
        1 => (DoorOperationTypeEnum::SingleSwingRight, "SINGLE_SWING_RIGHT"),
        2 => (DoorOperationTypeEnum::DoubleDoorSingleSwing, "DOUBLE_DOOR_SINGLE_SWING"),
        3 => (DoorOperationTypeEnum::DoubleSwingLeft, "DOUBLE_SWING_LEFT"),
        4 => (DoorOperationTypeEnum::DoubleSwingRight, "DOUBLE_SWING_RIGHT"),
        5 => (DoorOperationTypeEnum::DoubleDoorDoubleSwing, "DOUBLE_DOOR_DOUBLE_SWING"),
        6 => (DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeLeft, "DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT"),
        7 => (DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeRight, "DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT"),
        8 => (DoorOperationTypeEnum::SlidingToLeft, "SLIDING_TO_LEFT"),
        9 => (DoorOperationTypeEnum::SlidingToRight, "SLIDING_TO_RIGHT"),
        10 => (DoorOperationTypeEnum::DoubleDoorSliding, "DOUBLE_DOOR_SLIDING"),
        11 => (DoorOperationTypeEnum::FoldingToLeft, "FOLDING_TO_LEFT"),
        12 => (DoorOperationTypeEnum::FoldingToRight, "FOLDING_TO_RIGHT"),
        13 => (DoorOperationTypeEnum::DoubleDoorFolding, "DOUBLE_DOOR_FOLDING"),
        14 => (DoorOperationTypeEnum::Revolving, "REVOLVING"),
        15 => (DoorOperationTypeEnum::RollingUp, "ROLLINGUP"),
        16 => (DoorOperationTypeEnum::SwingFixedLeft, "SWING_FIXED_LEFT"),
        17 => (DoorOperationTypeEnum::SwingFixedRight, "SWING_FIXED_RIGHT"),
        18 => (DoorOperationTypeEnum::UserDefined, "USERDEFINED"),
        _ => (DoorOperationTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn door_type_enum(b: &mut B) -> (DoorTypeEnum, Node) {
    let (v, t) = match b.r.below(5) {
        0 => (DoorTypeEnum::Door, "DOOR"),
        1 => (DoorTypeEnum::Gate, "GATE"),
        2 => (DoorTypeEnum::Trapdoor, "TRAPDOOR"),
        3 => (DoorTypeEnum::UserDefined, "USERDEFINED"),
        _ => (DoorTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn opening_element_type_enum(b: &mut B) -> (OpeningElementTypeEnum, Node) {
    let (v, t) = match b.r.below(4) {
        0 => (OpeningElementTypeEnum::Opening, "OPENING"),
        1 => (OpeningElementTypeEnum::Recess, "RECESS"),
        2 => (OpeningElementTypeEnum::UserDefined, "USERDEFINED"),
        _ => (OpeningElementTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn roof_type_enum(b: &mut B) -> (RoofTypeEnum, Node) {
    let (v, t) = match b.r.below(14) {
        0 => (RoofTypeEnum::FlatRoof, "FLAT_ROOF"),
        1 => (RoofTypeEnum::ShedRoof, "SHED_ROOF"),
        2 => (RoofTypeEnum::GableRoof, "GABLE_ROOF"),
        3 => (RoofTypeEnum::HipRoof, "HIP_ROOF"),
        4 => (RoofTypeEnum::HippedGableRoof, "HIPPED_GABLE_ROOF"),
        5 => (RoofTypeEnum::GambrelRoof, "GAMBREL_ROOF"),
        6 => (RoofTypeEnum::MansardRoof, "MANSARD_ROOF"),
        7 => (RoofTypeEnum::BarrelRoof, "BARREL_ROOF"),
        8 => (RoofTypeEnum::RainbowRoof, "RAINBOW_ROOF"),
        9 => (RoofTypeEnum::ButterflyRoof, "BUTTERFLY_ROOF"),
        10 => (RoofTypeEnum::PavilionRoof, "PAVILION_ROOF"),
        11 => (RoofTypeEnum::DomeRoof, "DOME_ROOF"),
        12 => (RoofTypeEnum::UserDefined, "USERDEFINED"),
        _ => (RoofTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn shading_device_type_enum(b: &mut B) -> (ShadingDeviceTypeEnum, Node) {
    let (v, t) = match b.r.below(5) {
        0 => (ShadingDeviceTypeEnum::Awning, "AWNING"),
        1 => (ShadingDeviceTypeEnum::Parking, "JALOUSIE"),
        2 => (ShadingDeviceTypeEnum::Shutter, "SHUTTER"),
        3 => (ShadingDeviceTypeEnum::UserDefined, "USERDEFINED"),
        _ => (ShadingDeviceTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn composition_type_enum(b: &mut B) -> (CompositionTypeEnum, Node) {
    let (v, t) = match b.r.below(3) {
        0 => (CompositionTypeEnum::Comples, "COMPLEX"),
        1 => (CompositionTypeEnum::Element, "ELEMENT"),
        _ => (CompositionTypeEnum::Partial, "PARTIAL"),
    };
    (v, Node::Enum(t.into()))
}

pub fn slab_type_enum(b: &mut B) -> (SlabTypeEnum, Node) {
    let (v, t) = match b.r.below(6) {
        0 => (SlabTypeEnum::Floor, "FLOOR"),
        1 => (SlabTypeEnum::Roof, "ROOF"),
        2 => (SlabTypeEnum::Landing, "LANDING"),
        3 => (SlabTypeEnum::BaseSlab, "BASESLAB"),
        4 => (SlabTypeEnum::UserDefined, "USERDEFINED"),
        _ => (SlabTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn space_type_enum(b: &mut B) -> (SpaceTypeEnum, Node) {
    let (v, t) = match b.r.below(7) {
        0 => (SpaceTypeEnum::Space, "SPACE"),
        1 => (SpaceTypeEnum::Parking, "PARKING"),
        2 => (SpaceTypeEnum::Gfa, "GFA"),
        3 => (SpaceTypeEnum::Internal, "INTERNAL"),
        4 => (SpaceTypeEnum::External, "EXTERNAL"),
        5 => (SpaceTypeEnum::UserDefined, "USERDEFINED"),
        _ => (SpaceTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn wall_type_enum(b: &mut B) -> (WallTypeEnum, Node) {
    let (v, t) = match b.r.below(12) {
        0 => (WallTypeEnum::Movable, "MOVABLE"),
        1 => (WallTypeEnum::Parapet, "PARAPET"),
        2 => (WallTypeEnum::Partitioning, "PARTITIONING"),
        3 => (WallTypeEnum::Plumbingwall, "PLUMBINGWALL"),
        4 => (WallTypeEnum::Shear, "SHEAR"),
        5 => (WallTypeEnum::Solidwall, "SOLIDWALL"),
        6 => (WallTypeEnum::Standard, "STANDARD"),
        7 => (WallTypeEnum::Polygonal, "POLYGONAL"),
        8 => (WallTypeEnum::Elementedwall, "ELEMENTEDWALL"),
        9 => (WallTypeEnum::Retainingwall, "RETAININGWALL"),
        10 => (WallTypeEnum::UserDefined, "USERDEFINED"),
        _ => (WallTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn window_partitioning_type_enum(b: &mut B) -> (WindowPartitioningTypeEnum, Node) {
    let (v, t) = match b.r.below(11) {
        0 => (WindowPartitioningTypeEnum::SinglePanel, "SINGLE_PANEL"),
        1 => (WindowPartitioningTypeEnum::DoublePanelVertical, "DOUBLE_PANEL_VERTICAL"),
        2 => (WindowPartitioningTypeEnum::DoublePanelHorizontal, "DOUBLE_PANEL_HORIZONTAL"),
        3 => (WindowPartitioningTypeEnum::TriplePanelVertical, "TRIPLE_PANEL_VERTICAL"),
        4 => (WindowPartitioningTypeEnum::TriplePanelHorizontal, "TRIPLE_PANEL_HORIZONTAL"),
        5 => (WindowPartitioningTypeEnum::TriplePanelBottom, "TRIPLE_PANEL_BOTTOM"),
        6 => (WindowPartitioningTypeEnum::TriplePanelTop, "TRIPLE_PANEL_TOP"),
        7 => (WindowPartitioningTypeEnum::TriplePanelLeft, "TRIPLE_PANEL_LEFT"),
        8 => (WindowPartitioningTypeEnum::TriplePanelRight, "TRIPLE_PANEL_RIGHT"),
        9 => (WindowPartitioningTypeEnum::UserDefined, "USERDEFINED"),
        _ => (WindowPartitioningTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn window_type_enum(b: &mut B) -> (WindowTypeEnum, Node) {
    let (v, t) = match b.r.below(5) {
        0 => (WindowTypeEnum::Window, "WINDOW"),
        1 => (WindowTypeEnum::Skylight, "SKYLIGHT"),
        2 => (WindowTypeEnum::Lightdome, "LIGHTDOME"),
        3 => (WindowTypeEnum::UserDefined, "USERDEFINED"),
        _ => (WindowTypeEnum::NotDefined, "NOTDEFINED"),
    };
    (v, Node::Enum(t.into()))
}

pub fn ifc_unit_name(b: &mut B) -> (IfcUnitName, Node) {
    let (v, t) = match b.r.below(30) {
        0 => (IfcUnitName::Ampere, "AMPERE"),
        1 => (IfcUnitName::Becquerel, "BECQUEREL"),
        2 => (IfcUnitName::Candela, "CANDELA"),
        3 => (IfcUnitName::Couloumb, "COULOMB"),
        4 => (IfcUnitName::CubicMetre, "CUBIC_METRE"),
        5 => (IfcUnitName::DegreeCelcius, "DEGREE_CELSIUS"),
        6 => (IfcUnitName::Farad, "FARAD"),
        7 => (IfcUnitName::Gram, "GRAM"),
        8 => (IfcUnitName::Gray, "GRAY"),
        9 => (IfcUnitName::Henry, "HENRY"),
        10 => (IfcUnitName::Hertz, "HERTZ"),
        11 => (IfcUnitName::Joule, "JOULE"),
        12 => (IfcUnitName::Kelvin, "KELVIN"),
        13 => (IfcUnitName::Lumen, "LUMEN"),
        14 => (IfcUnitName::Lux, "LUX"),
        15 => (IfcUnitName::Metre, "METRE"),
        16 => (IfcUnitName::Mole, "MOLE"),
        17 => (IfcUnitName::Newton, "NEWTON"),
        18 => (IfcUnitName::Ohm, "OHM"),
        19 => (IfcUnitName::Pascal, "PASCAL"),
        20 => (IfcUnitName::Radian, "RADIAN"),
        21 => (IfcUnitName::Second, "SECOND"),
        22 => (IfcUnitName::Siemens, "SIEMENS"),
        23 => (IfcUnitName::Sievert, "SIEVERT"),
        24 => (IfcUnitName::SquareMetre, "SQUARE_METRE"),
        25 => (IfcUnitName::Steradian, "STERADIAN"),
        26 => (IfcUnitName::Tesla, "TESLA"),
        27 => (IfcUnitName::Volt, "VOLT"),
        28 => (IfcUnitName::Watt, "WATT"),
        _ => (IfcUnitName::Weber, "WEBER"),
    };
    (v, Node::Enum(t.into()))
}

pub fn ifc_prefix(b: &mut B) -> (IfcPrefix, Node) {
    let (v, t) = match b.r.below(15) {
        0 => (IfcPrefix::Exa, "EXA"),
        1 => (IfcPrefix::Peta, "PETA"),
        2 => (IfcPrefix::Tera, "TERA"),
        3 => (IfcPrefix::Giga, "GIGA"),
        4 => (IfcPrefix::Mega, "MEGA"),
        5 => (IfcPrefix::Kilo, "KILO"),
        6 => (IfcPrefix::Deca, "DECA"),
        7 => (IfcPrefix::Deci, "DECI"),
        8 => (IfcPrefix::Centi, "CENTI"),
        9 => (IfcPrefix::Milli, "MILLI"),
        10 => (IfcPrefix::Micro, "MICRO"),
        11 => (IfcPrefix::Nano, "NANO"),
        12 => (IfcPrefix::Pico, "PICO"),
        13 => (IfcPrefix::Femto, "FEMTO"),
        _ => (IfcPrefix::Atto, "ATTO"),
    };
    (v, Node::Enum(t.into()))
}

pub fn ifc_unit_enum(b: &mut B) -> (IfcUnitEnum, Node) {
    let (v, t) = match b.r.below(29) {
        0 => (IfcUnitEnum::AbsorbedDoseUnit, "ABSORBEDDOSEUNIT"),
        1 => (IfcUnitEnum::AmountOfSubstanceUnit, "AMOUNTOFSUBSTANCEUNIT"),
        2 => (IfcUnitEnum::AreaUnit, "AREAUNIT"),
        3 => (IfcUnitEnum::DoseEquivalentUnit, "DOSEEQUIVALENTUNIT"),
        4 => (IfcUnitEnum::ElectricCapacitanceUnit, "ELECTRICCAPACITANCEUNIT"),
        5 => (IfcUnitEnum::ElectricChargeUnit, "ELECTRICCHARGEUNIT"),
        6 => (IfcUnitEnum::ElectricConductanceUnit, "ELECTRICCONDUCTANCEUNIT"),
        7 => (IfcUnitEnum::ElectricCurrentUnit, "ELECTRICCURRENTUNIT"),
        8 => (IfcUnitEnum::ElectricResistanceUnit, "ELECTRICRESISTANCEUNIT"),
        9 => (IfcUnitEnum::ElectricVoltageUnit, "ELECTRICVOLTAGEUNIT"),
        10 => (IfcUnitEnum::EnergyUnit, "ENERGYUNIT"),
        11 => (IfcUnitEnum::ForceUnit, "FORCEUNIT"),
        12 => (IfcUnitEnum::IlluminanceUnit, "ILLUMINANCEUNIT"),
        13 => (IfcUnitEnum::InductanceUnit, "INDUCTANCEUNIT"),
        14 => (IfcUnitEnum::LengthUnit, "LENGTHUNIT"),
        15 => (IfcUnitEnum::LuminousFluxUnit, "LUMINOUSFLUXUNIT"),
        16 => (IfcUnitEnum::LuminousIntensityUnit, "LUMINOUSINTENSITYUNIT"),
        17 => (IfcUnitEnum::MagneticFluxDensityUnit, "MAGNETICFLUXDENSITYUNIT"),
        18 => (IfcUnitEnum::MagneticFluxUnit, "MAGNETICFLUXUNIT"),
        19 => (IfcUnitEnum::MassUnit, "MASSUNIT"),
        20 => (IfcUnitEnum::PlaneAngleUnit, "PLANEANGLEUNIT"),
        21 => (IfcUnitEnum::PowerUnit, "POWERUNIT"),
        22 => (IfcUnitEnum::PressureUnit, "PRESSUREUNIT"),
        23 => (IfcUnitEnum::RadioActivityUnit, "RADIOACTIVITYUNIT"),
        24 => (IfcUnitEnum::SolidAngleUnit, "SOLIDANGLEUNIT"),
        25 => (IfcUnitEnum::ThermoDynamicTemperatureUnit, "THERMODYNAMICTEMPERATUREUNIT"),
        26 => (IfcUnitEnum::TimeUnit, "TIMEUNIT"),
        27 => (IfcUnitEnum::VolumeUnit, "VOLUMEUNIT"),
        _ => (IfcUnitEnum::UserDefined, "USERDEFINED"),
    };
    (v, Node::Enum(t.into()))
}
