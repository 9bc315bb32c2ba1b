//! The entity layouts, written down independently of the library: keyword, in-memory type, and
//! the attributes in schema order.

/// attribute kinds
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Guid,
    Str,
    OStr,
    Real,
    OReal,
    Int,
    OInt,
    /// small integer (i32)
    Exp,
    Bool,
    OBool,
    Time,
    OTime,
    Enum(&'static str),
    OEnum(&'static str),
    /// enumeration written as a string
    SEnum(&'static str),
    OSEnum(&'static str),
    Ref(&'static str),
    ORef(&'static str),
    LRef(&'static str),
    OLRef(&'static str),
    LOStr,
    LOInt,
    V2,
    V3,
    LV2,
    LV3,
    Dim,
    ODim,
    Value,
    Measure,
}
use F::*;

pub struct Ent {
    pub kw: &'static str,
    pub ty: &'static str,
    pub attrs: Vec<F>,
    /// accepted keyword variants which are written back as `kw`
    pub alias: Option<&'static str>,
    /// whitespace is tolerated inside of the record
    pub ws: bool,
}

pub const WALL_TYPE: &str = "MOVABLE PARAPET PARTITIONING PLUMBINGWALL SHEAR SOLIDWALL STANDARD POLYGONAL ELEMENTEDWALL RETAININGWALL USERDEFINED NOTDEFINED";
pub const SLAB_TYPE: &str = "FLOOR ROOF LANDING BASESLAB USERDEFINED NOTDEFINED";
pub const ROOF_TYPE: &str = "FLAT_ROOF SHED_ROOF GABLE_ROOF HIP_ROOF HIPPED_GABLE_ROOF GAMBREL_ROOF MANSARD_ROOF BARREL_ROOF RAINBOW_ROOF BUTTERFLY_ROOF PAVILION_ROOF DOME_ROOF USERDEFINED NOTDEFINED";
pub const SHADING_TYPE: &str = "AWNING JALOUSIE SHUTTER USERDEFINED NOTDEFINED";
pub const OPENING_TYPE: &str = "OPENING RECESS USERDEFINED NOTDEFINED";
pub const DOOR_TYPE: &str = "DOOR GATE TRAPDOOR USERDEFINED NOTDEFINED";
pub const DOOR_OP: &str = "SINGLE_SWING_LEFT SINGLE_SWING_RIGHT DOUBLE_DOOR_SINGLE_SWING DOUBLE_SWING_LEFT DOUBLE_SWING_RIGHT DOUBLE_DOOR_DOUBLE_SWING DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT SLIDING_TO_LEFT SLIDING_TO_RIGHT DOUBLE_DOOR_SLIDING FOLDING_TO_LEFT FOLDING_TO_RIGHT DOUBLE_DOOR_FOLDING REVOLVING ROLLINGUP SWING_FIXED_LEFT SWING_FIXED_RIGHT USERDEFINED NOTDEFINED";
pub const WINDOW_TYPE: &str = "WINDOW SKYLIGHT LIGHTDOME USERDEFINED NOTDEFINED";
pub const WINDOW_PART: &str = "SINGLE_PANEL DOUBLE_PANEL_VERTICAL DOUBLE_PANEL_HORIZONTAL TRIPLE_PANEL_VERTICAL TRIPLE_PANEL_HORIZONTAL TRIPLE_PANEL_BOTTOM TRIPLE_PANEL_TOP TRIPLE_PANEL_LEFT TRIPLE_PANEL_RIGHT USERDEFINED NOTDEFINED";
pub const SPACE_TYPE: &str = "SPACE PARKING GFA INTERNAL EXTERNAL USERDEFINED NOTDEFINED";
pub const COMPOSITION: &str = "COMPLEX ELEMENT PARTIAL";
pub const PROJECTION: &str = "GRAPH_VIEW SKETCH_VIEW MODEL_VIEW PLAN_VIEW REFLECTED_PLAN_VIEW SECTION_VIEW ELEVATION_VIEW USERDEFINED NOTDEFINED";
pub const PROFILE: &str = "CURVE AREA";
pub const REP_ID: &str = "CoG|Box|Annotation|Axis|FootPrint|Profile|Surface|Reference|Body|Body-FallBack|Clearance|Lighting";
pub const REP_TYPE: &str = "Point|PointCloud|Curve|Curve2D|Curve3D|Surface|Surface2D|Surface3D|SectionedSurface|FillArea|Text|AdvancedSurface|GeometricSet|GeometricCurveSet|Annotation2D|SurfaceModel|Tessellation|Segment|SolidModel|SweptSolid|AdvancedSweptSolid|Brep|AdvancedBrep|CSG|Clipping|BoundingBox|SectionedSpine|LightSource|MappedRepresentation";
pub const SENSE: &str = "POSITIVE NEGATIVE";
pub const AXIS: &str = "AXIS1 AXIS2 AXIS3";
pub const ACCESS: &str = "READWRITE READONLY LOCKED READWRITELOCKED READONLYLOCKED";
pub const ROLE: &str = "SUPPLIER MANUFACTURER CONTRACTOR SUBCONTRACTOR ARCHITECT STRUCTURALENGINEER COSTENGINEER CLIENT BUILDINGOWNER BUILDINGOPERATOR MECHANICALENGINEER ELECTRICALENGINEER PROJECTMANAGER FACILITIESMANAGER CIVILENGINEER COMMISSIONINGENGINEER ENGINEER OWNER CONSULTANT CONSTRUCTIONMANAGER FIELDCONSTRUCTIONMANAGER RESELLER USERDEFINED";
pub const CHANGE: &str = "NOCHANGE MODIFIED ADDED DELETED MODIFIEDADDED MODIFIEDDELETED";
pub const CONV: &str = "DEGREE|INCH|FOOT|YARD|MILE|SQUARE INCH|SQUARE FOOT|SQUARE YARD|ACRE|SQUARE MILE|CUBIC INCH|CUBIC FOOT|CUBIC YARD|LITRE|FLUID OUNCE UK|FLUID OUNCE US|PINT UK|PINT US|GALLON UK|GALLON US|OUNCE|POUND|TON UK|TON US|LBF|KIP|PSI|KSI|MINUTE|HOUR|DAY|BTU";
pub const DERIVED: &str = "ANGULARVELOCITYUNIT AREADENSITYUNIT COMPOUNDPLANEANGLEUNIT DYNAMICVISCOSITYUNIT HEATFLUXDENSITYUNIT INTEGERCOUNTRATEUNIT ISOTHERMALMOISTURECAPACITYUNIT KINEMATICVISCOSITYUNIT LINEARVELOCITYUNIT MASSDENSITYUNIT MASSFLOWRATEUNIT MOISTUREDIFFUSIVITYUNIT MOLECULARWEIGHTUNIT SPECIFICHEATCAPACITYUNIT THERMALADMITTANCEUNIT THERMALCONDUCTANCEUNIT THERMALRESISTANCEUNIT THERMALTRANSMITTANCEUNIT VAPORPERMEABILITYUNIT VOLUMETRICFLOWRATEUNIT ROTATIONALFREQUENCYUNIT TORQUEUNIT MOMENTOFINERTIAUNIT LINEARMOMENTUNIT LINEARFORCEUNIT PLANARFORCEUNIT MODULUSOFELASTICITYUNIT SHEARMODULUSUNIT LINEARSTIFFNESSUNIT ROTATIONALSTIFFNESSUNIT MODULUSOFSUBGRADEREACTIONUNIT ACCELERATIONUNIT CURVATUREUNIT IONCONCENTRATIONUNIT LUMINOUSINTENSITYDISTRIBUTIONUNIT MASSPERLENGTHUNIT MODULUSOFLINEARSUBGRADEREACTIONUNIT MODULUSOFROTATIONALSUBGRADEREACTIONUNIT PHUNIT ROTATIONALMASSUNIT SECTIONAREAINTEGRALUNIT SECTIONMODULUSUNIT SOUNDPOWERLEVELUNIT SOUNDPOWERUNIT SOUNDPRESSURELEVELUNIT SOUNDPRESSUREUNIT TEMPERATUREGRADIENTUNIT TEMPERATURERATEOFCHANGEUNIT THERMALEXPANSIONCOEFFICIENTUNIT WARPINGCONSTANTUNIT WARPINGMOMENTUNIT USERDEFINED";
pub const UNIT_NAME: &str = "AMPERE BECQUEREL CANDELA COULOMB CUBIC_METRE DEGREE_CELSIUS FARAD GRAM GRAY HENRY HERTZ JOULE KELVIN LUMEN LUX METRE MOLE NEWTON OHM PASCAL RADIAN SECOND SIEMENS SIEVERT SQUARE_METRE STERADIAN TESLA VOLT WATT WEBER";
pub const PREFIX: &str = "EXA PETA TERA GIGA MEGA KILO DECA DECI CENTI MILLI MICRO NANO PICO FEMTO ATTO";
pub const UNIT_ENUM: &str = "ABSORBEDDOSEUNIT AMOUNTOFSUBSTANCEUNIT AREAUNIT DOSEEQUIVALENTUNIT ELECTRICCAPACITANCEUNIT ELECTRICCHARGEUNIT ELECTRICCONDUCTANCEUNIT ELECTRICCURRENTUNIT ELECTRICRESISTANCEUNIT ELECTRICVOLTAGEUNIT ENERGYUNIT FORCEUNIT ILLUMINANCEUNIT INDUCTANCEUNIT LENGTHUNIT LUMINOUSFLUXUNIT LUMINOUSINTENSITYUNIT MAGNETICFLUXDENSITYUNIT MAGNETICFLUXUNIT MASSUNIT PLANEANGLEUNIT POWERUNIT PRESSUREUNIT RADIOACTIVITYUNIT SOLIDANGLEUNIT THERMODYNAMICTEMPERATUREUNIT TIMEUNIT VOLUMEUNIT USERDEFINED";

pub const ADDRESS: &str = "IFCTELECOMADDRESS IFCPOSTALADDRESS";
pub const AXIS_ANY: &str = "IFCAXIS2PLACEMENT2D IFCAXIS2PLACEMENT3D";
pub const STRUCT: &str = "IFCSITE IFCBUILDING IFCBUILDINGSTOREY IFCSPACE IFCOPENINGELEMENT IFCSLAB IFCROOF IFCWALL IFCWINDOW IFCDOOR IFCSHADINGDEVICE";
pub const ELEM: &str = "IFCBUILDING IFCOPENINGELEMENT IFCSLAB IFCROOF IFCWALL IFCWINDOW IFCDOOR IFCSHADINGDEVICE";
/// 2D/3D variants share a keyword; the schema keeps them apart with a suffix which is not written
pub const PT: &str = "IFCCARTESIANPOINT@2 IFCCARTESIANPOINT@3";
pub const DIR: &str = "IFCDIRECTION@2 IFCDIRECTION@3";
pub const TYPES: &str = "IFCWALLTYPE IFCSLABTYPE IFCROOFTYPE IFCWINDOWTYPE IFCDOORTYPE IFCSPACETYPE IFCSHADINGDEVICETYPE";
pub const ANY: &str = "";

fn cat(a: &[F], b: &[F]) -> Vec<F> {
    a.iter().chain(b).copied().collect()
}

pub fn schema() -> Vec<Ent> {
    let root = vec![Guid, ORef("IFCOWNERHISTORY"), OStr, OStr];
    let object = cat(&root, &[OStr]);
    let product = cat(
        &object,
        &[
            ORef("IFCAXIS2PLACEMENT3D IFCCARTESIANPOINT@3 IFCLOCALPLACEMENT"),
            ORef("IFCPRODUCTDEFINITIONSHAPE"),
        ],
    );
    let element = cat(&product, &[OStr]);
    let spatial = cat(&product, &[OStr, OEnum(COMPOSITION)]);
    let context = cat(
        &root,
        &[
            OStr,
            OStr,
            OStr,
            LRef("IFCGEOMETRICREPRESENTATIONCONTEXT"),
            ORef("IFCUNITASSIGNMENT"),
        ],
    );
    let etype = cat(
        &root,
        &[
            ORef(ANY),
            OLRef(ANY),
            OLRef("IFCREPRESENTATIONMAP"),
            OStr,
            OStr,
        ],
    );
    let transform = vec![
        ORef("IFCDIRECTION@3"),
        ORef("IFCDIRECTION@3"),
        ORef("IFCCARTESIANPOINT@3"),
        OReal,
        ORef("IFCDIRECTION@3"),
    ];
    let mut v = vec![];
    let mut e = |kw: &'static str, ty: &'static str, attrs: Vec<F>| {
        v.push(Ent {
            kw,
            ty,
            attrs,
            alias: match kw {
                "IFCWALL" => Some("IFCWALLSTANDARDCASE"),
                "IFCSLAB" => Some("IFCSLABSTANDARDCASE"),
                "IFCDOOR" => Some("IFCDOORSTANDARDCASE"),
                "IFCWINDOW" => Some("IFCWINDOWSTANDARDCASE"),
                _ => None,
            },
            ws: !matches!(
                kw,
                "IFCCARTESIANPOINT@2"
                    | "IFCCARTESIANPOINT@3"
                    | "IFCDIRECTION@2"
                    | "IFCDIRECTION@3"
                    | "IFCAXIS2PLACEMENT2D"
                    | "IFCAXIS2PLACEMENT3D"
                    | "IFCINDEXEDPOLYCURVE"
                    | "IFCCARTESIANPOINTLIST2D"
                    | "IFCCARTESIANPOINTLIST3D"
                    | "IFCGEOMETRICREPRESENTATIONCONTEXT"
                    | "IFCGEOMETRICREPRESENTATIONSUBCONTEXT"
                    | "IFCLOCALPLACEMENT"
            ),
        });
    };
    // resources first: references mostly point backwards
    e("IFCCARTESIANPOINT@2", "Point2D", vec![V2]);
    e("IFCCARTESIANPOINT@3", "Point3D", vec![V3]);
    e("IFCDIRECTION@2", "Direction2D", vec![V2]);
    e("IFCDIRECTION@3", "Direction3D", vec![V3]);
    e("IFCAXIS2PLACEMENT2D", "Axis2D", vec![Ref("IFCCARTESIANPOINT@2"), ORef("IFCDIRECTION@2")]);
    e("IFCAXIS2PLACEMENT3D", "Axis3D", vec![Ref("IFCCARTESIANPOINT@3"), ORef("IFCDIRECTION@3"), ORef("IFCDIRECTION@3")]);
    e("IFCACTORROLE", "ActorRole", vec![Enum(ROLE), OStr, OStr]);
    e("IFCTELECOMADDRESS", "TelecomAddress", vec![OStr, OStr, OStr, LOStr, LOStr, OStr, LOStr, OStr]);
    e("IFCPOSTALADDRESS", "PostalAddress", vec![OStr, OStr, OStr, OStr, LOStr, OStr, LOStr, OStr, OStr, OStr]);
    e("IFCPERSON", "Person", vec![OStr, OStr, OStr, LOStr, LOStr, LOStr, OLRef("IFCACTORROLE"), OLRef(ADDRESS)]);
    e("IFCORGANIZATION", "Organization", vec![OStr, Str, OStr, OLRef("IFCACTORROLE"), OLRef(ADDRESS)]);
    e("IFCPERSONANDORGANIZATION", "PersonAndOrganization", vec![Ref("IFCPERSON"), Ref("IFCORGANIZATION"), OLRef("IFCACTORROLE")]);
    e("IFCAPPLICATION", "Application", vec![Ref("IFCORGANIZATION"), Str, Str, Str]);
    e("IFCOWNERHISTORY", "OwnerHistory", vec![ORef("IFCPERSONANDORGANIZATION"), ORef("IFCAPPLICATION"), OEnum(ACCESS), Enum(CHANGE), OTime, ORef("IFCPERSONANDORGANIZATION"), ORef("IFCAPPLICATION"), Time]);
    e("IFCDIMENSIONALEXPONENTS", "DimensionalExponents", vec![Exp, Exp, Exp, Exp, Exp, Exp, Exp]);
    e("IFCSIUNIT", "SiUnit", vec![ORef(ANY), OEnum(UNIT_ENUM), OEnum(PREFIX), Enum(UNIT_NAME)]);
    e("IFCMEASUREWITHUNIT", "MeasureWithUnit", vec![Measure, Ref("IFCSIUNIT")]);
    e("IFCCONVERSIONBASEDUNIT", "ConversionBasedUnit", vec![ORef(ANY), OEnum(UNIT_ENUM), OSEnum(CONV), ORef("IFCMEASUREWITHUNIT")]);
    e("IFCDERIVEDUNITELEMENT", "DerivedUnitElement", vec![Ref("IFCSIUNIT"), Int]);
    e("IFCDERIVEDUNIT", "DerivedUnit", vec![LRef("IFCDERIVEDUNITELEMENT"), Enum(DERIVED), OStr]);
    e("IFCMONETARYUNIT", "MonetaryUnit", vec![Str]);
    e("IFCUNITASSIGNMENT", "UnitAssigment", vec![LRef("IFCSIUNIT IFCCONVERSIONBASEDUNIT IFCDERIVEDUNIT IFCMONETARYUNIT")]);
    e("IFCLOCALPLACEMENT", "LocalPlacement", vec![ORef("IFCLOCALPLACEMENT"), Ref(AXIS_ANY)]);
    e("IFCGEOMETRICREPRESENTATIONCONTEXT", "GeometricRepresentationContext", vec![OSEnum(REP_ID), OStr, Dim, OReal, Ref(AXIS_ANY), ORef(DIR)]);
    e("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", "GeometricRepresentationSubContext", vec![OSEnum(REP_ID), OStr, ODim, OReal, ORef(AXIS_ANY), ORef(DIR), Ref("IFCGEOMETRICREPRESENTATIONCONTEXT"), OReal, Enum(PROJECTION), OStr]);
    e("IFCCARTESIANPOINTLIST2D", "PointList2D", vec![LV2, LOStr]);
    e("IFCCARTESIANPOINTLIST3D", "PointList3D", vec![LV3, LOStr]);
    e("IFCINDEXEDPOLYCURVE", "IndexedPolyCurve", vec![Ref("IFCCARTESIANPOINTLIST2D IFCCARTESIANPOINTLIST3D"), OStr, OBool]);
    e("IFCPOLYLINE", "PolyLine", vec![LRef(PT)]);
    e("IFCRECTANGLEPROFILEDEF", "RectangleProfileDef", vec![Enum(PROFILE), OStr, ORef(AXIS_ANY), Real, Real]);
    e("IFCARBITRARYCLOSEDPROFILEDEF", "ArbitraryClosedProfileDef", vec![Enum(PROFILE), OStr, Ref("IFCINDEXEDPOLYCURVE IFCPOLYLINE")]);
    e("IFCEXTRUDEDAREASOLID", "ExtrudedAreaSolid", vec![Ref("IFCRECTANGLEPROFILEDEF IFCARBITRARYCLOSEDPROFILEDEF"), ORef("IFCAXIS2PLACEMENT3D"), Ref("IFCDIRECTION@3"), Real]);
    e("IFCSHAPEREPRESENTATION", "ShapeRepresentation", vec![Ref("IFCGEOMETRICREPRESENTATIONSUBCONTEXT IFCGEOMETRICREPRESENTATIONCONTEXT"), OSEnum(REP_ID), OSEnum(REP_TYPE), LRef("IFCEXTRUDEDAREASOLID IFCPOLYLINE IFCMAPPEDITEM")]);
    e("IFCREPRESENTATIONMAP", "RepresentationMap", vec![Ref("IFCAXIS2PLACEMENT3D"), Ref("IFCSHAPEREPRESENTATION")]);
    e("IFCCARTESIANTRANSFORMATIONOPERATOR3D", "CartesianTransformationOperator3D", transform.clone());
    e("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", "CartesianTransformationOperator3DnonUniform", cat(&transform, &[OReal, OReal]));
    e("IFCMAPPEDITEM", "MappedItem", vec![Ref("IFCREPRESENTATIONMAP"), Ref("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM IFCCARTESIANTRANSFORMATIONOPERATOR3D")]);
    e("IFCPRODUCTDEFINITIONSHAPE", "ProductDefinitionShape", vec![OStr, OStr, LRef("IFCSHAPEREPRESENTATION")]);
    e("IFCMATERIAL", "Material", vec![OStr, OStr, OStr]);
    e("IFCMATERIALLAYER", "MaterialLayer", vec![ORef("IFCMATERIAL"), Real, Bool, OStr, OStr, OStr, OInt]);
    e("IFCMATERIALLAYERSET", "MaterialLayerSet", vec![LRef("IFCMATERIALLAYER"), OStr, OStr]);
    e("IFCMATERIALLAYERSETUSAGE", "MaterialLayerSetUsage", vec![Ref("IFCMATERIALLAYERSET"), Enum(AXIS), Enum(SENSE), Real, OReal]);
    e("IFCMATERIALCONSTITUENT", "MaterialConstituent", vec![OStr, OStr, Ref("IFCMATERIAL"), OReal, OStr]);
    e("IFCMATERIALCONSTITUENTSET", "MaterialConstituentSet", vec![OStr, OStr, LRef("IFCMATERIALCONSTITUENT")]);
    e("IFCPROPERTYSINGLEVALUE", "PropertySingleValue", vec![OStr, OStr, Value, ORef(ANY)]);
    e("IFCPROPERTYSET", "PropertySet", cat(&root, &[LRef("IFCPROPERTYSINGLEVALUE")]));
    e("IFCMATERIALPROPERTIES", "MaterialProperties", vec![OStr, OStr, LRef(ANY), Ref("IFCMATERIAL")]);
    e("IFCWALLTYPE", "WallType", cat(&etype, &[Enum(WALL_TYPE)]));
    e("IFCSLABTYPE", "SlabType", cat(&etype, &[Enum(SLAB_TYPE)]));
    e("IFCROOFTYPE", "RoofType", cat(&etype, &[Enum(ROOF_TYPE)]));
    e("IFCSHADINGDEVICETYPE", "ShadingDeviceType", cat(&etype, &[Enum(SHADING_TYPE)]));
    e("IFCDOORTYPE", "DoorType", cat(&etype, &[Enum(DOOR_TYPE), Enum(DOOR_OP), OBool, OStr]));
    e("IFCWINDOWTYPE", "WindowType", cat(&etype, &[Enum(WINDOW_TYPE), Enum(WINDOW_PART), OBool, OStr]));
    e("IFCSPACETYPE", "SpaceType", cat(&etype, &[Enum(SPACE_TYPE), OStr]));
    e("IFCPROJECT", "Project", context);
    e("IFCSITE", "Site", cat(&spatial, &[LOInt, LOInt, OReal, OStr, ORef("IFCPOSTALADDRESS")]));
    e("IFCBUILDING", "Building", cat(&spatial, &[OReal, OReal, ORef("IFCPOSTALADDRESS")]));
    e("IFCBUILDINGSTOREY", "Storey", cat(&spatial, &[OReal]));
    e("IFCSPACE", "Space", cat(&spatial, &[OEnum(SPACE_TYPE), OReal]));
    e("IFCWALL", "Wall", cat(&element, &[ORef("IFCWALLTYPE")]));
    e("IFCSLAB", "Slab", cat(&element, &[OEnum(SLAB_TYPE)]));
    e("IFCROOF", "Roof", cat(&element, &[OEnum(ROOF_TYPE)]));
    e("IFCSHADINGDEVICE", "ShadingDevice", cat(&element, &[OEnum(SHADING_TYPE)]));
    e("IFCOPENINGELEMENT", "OpeningElement", cat(&element, &[OEnum(OPENING_TYPE)]));
    e("IFCDOOR", "Door", cat(&element, &[OReal, OReal, OEnum(DOOR_TYPE), OEnum(DOOR_OP), OStr]));
    e("IFCWINDOW", "Window", cat(&element, &[OReal, OReal, OEnum(WINDOW_TYPE), OEnum(WINDOW_PART), OStr]));
    e("IFCRELAGGREGATES", "RelAggregates", cat(&root, &[Ref("IFCPROJECT IFCSITE IFCBUILDING IFCBUILDINGSTOREY"), LRef("IFCSITE IFCBUILDING IFCBUILDINGSTOREY IFCSPACE")]));
    e("IFCRELASSOCIATESMATERIAL", "RelAssociatesMaterial", cat(&root, &[LRef(ANY), Ref("IFCMATERIALCONSTITUENTSET IFCMATERIALLAYERSETUSAGE IFCMATERIALLAYERSET IFCMATERIAL")]));
    e("IFCRELCONTAINEDINSPATIALSTRUCTURE", "RelContainedInSpatialStructure", cat(&root, &[LRef(STRUCT), Ref(STRUCT)]));
    e("IFCRELDECLARES", "RelDeclares", cat(&root, &[Ref("IFCPROJECT"), LRef(ANY)]));
    e("IFCRELDEFINESBYTYPE", "RelDefinesByType", cat(&root, &[LRef(ANY), Ref(ANY)]));
    e("IFCRELDEFINESBYPROPERTIES", "RelDefinesByProperties", cat(&root, &[LRef(ANY), Ref(ANY)]));
    e("IFCRELVOIDSELEMENT", "RelVoidsElement", cat(&root, &[Ref(ELEM), Ref("IFCOPENINGELEMENT")]));
    e("IFCRELFILLSELEMENT", "RelFillsElement", cat(&root, &[Ref("IFCOPENINGELEMENT"), Ref(ELEM)]));
    v
}

/// the keyword as written
pub fn written(kw: &str) -> &str {
    kw.split('@').next().unwrap()
}

/// the entity of a record: alias and 2D/3D resolved
pub fn entity_of<'a>(schema: &'a [Ent], kw: &str, args: &[crate::step::Node]) -> Option<&'a Ent> {
    use crate::step::Node;
    schema.iter().find(|e| {
        (written(e.kw) == kw || e.alias == Some(kw))
            && match (e.kw.split('@').nth(1), args.first()) {
                (Some(n), Some(Node::List(l))) => l.len() == n.parse::<usize>().unwrap(),
                _ => true,
            }
    })
}

pub fn target_classes(f: &F) -> Option<(&'static str, bool, bool)> {
    match f {
        Ref(c) => Some((c, true, false)),
        ORef(c) => Some((c, false, false)),
        LRef(c) => Some((c, true, true)),
        OLRef(c) => Some((c, false, true)),
        Measure => None,
        _ => None,
    }
}
