//! What the in-memory model says, read through the public fields of the entities (in schema
//! order), so that an attribute that is stored in the wrong place is seen even if reading and
//! writing swap it consistently.

use ifc_rs::prelude::*;

macro_rules! views {
    ($any:expr; $($ty:ident [$($f:tt),*];)*) => {
        $( if let Some(x) = $any.downcast_ref::<$ty>() {
            return Some((stringify!($ty), vec![$( views!(@ x $f) ),*]));
        } )*
    };
    (@ $x:ident _) => { None };
    (@ $x:ident $f:ident) => { Some($x.$f.to_string()) };
}

/// (type name, attributes as text; `None` = not publicly readable)
pub fn view(any: &dyn IfcType) -> Option<(&'static str, Vec<Option<String>>)> {
    views! { any;
        Axis2D [location, local_x];
        Axis3D [location, local_z, local_x];
        ActorRole [role, user_defined_role, description];
        TelecomAddress [purpose, description, user_defined_purpose, telephone_numbers, facsimile_numbers, pager_number, email_addresses, homepage_url];
        PostalAddress [purpose, description, user_defined_purpose, internal_location, address_lines, postal_box, town, region, postal_code, country];
        Person [id, family_name, given_name, middle_names, prefix_titles, suffix_titles, roles, addresses];
        Organization [id, name, description, roles, addresses];
        PersonAndOrganization [the_person, the_organization, roles];
        Application [application_developer, version, application_full_name, application_identifier];
        OwnerHistory [owning_user, owning_application, state, change_action, last_modified_date, last_modifying_user, last_modifying_application, creation_date];
        DimensionalExponents [length, mass, time, electric_current, thermodynamic_temperature, amount_of_substance, luminouse_intensity];
        SiUnit [dimensions, unit_type, prefix, name];
        MeasureWithUnit [value, unit];
        ConversionBasedUnit [dimensions, unit_type, name, conversion_factor];
        DerivedUnitElement [unit, exponent];
        DerivedUnit [elements, unit_type, user_defined_type];
        MonetaryUnit [currency];
        UnitAssigment [units];
        LocalPlacement [placement_rel_to, relative_placement];
        GeometricRepresentationContext [context_identifier, context_type, coord_space_dimension, precision, world_coord_system, true_north];
        GeometricRepresentationSubContext [context_identifier, context_type, coord_space_dimension, precision, world_coord_system, true_north, parent_context, target_scale, target_view, user_defined_target_view];
        PointList2D [coord_list, tag_list];
        PointList3D [coord_list, tag_list];
        IndexedPolyCurve [points, segments, self_intersect];
        PolyLine [points];
        RectangleProfileDef [profile_type, profile_name, position, x_dim, y_dim];
        ArbitraryClosedProfileDef [profile_type, profile_name, outer_curve];
        ExtrudedAreaSolid [swept_area, position, extruded_direction, depth];
        ShapeRepresentation [context_of_items, representation_identifier, representation_type, items];
        RepresentationMap [origin, representation];
        CartesianTransformationOperator3D [axis_x, axis_y, local_origin, scale, axis_z];
        CartesianTransformationOperator3DnonUniform [axis_x, axis_y, local_origin, scale, axis_z, scale_y, scale_z];
        MappedItem [source, target];
        ProductDefinitionShape [name, description, representations];
        Material [material, description, category];
        MaterialLayer [material, layer_thickness, is_ventilated, name, description, category, priority];
        MaterialLayerSet [material_layers, layer_set_name, description];
        MaterialLayerSetUsage [spatial_element_structure, layer_set_direction, direction_sense, offset_from_reference_line, reference_extent];
        MaterialConstituent [name, description, material, fraction, category];
        MaterialConstituentSet [name, description, material_constituents];
        PropertySingleValue [_, _, value, unit];
        PropertySet [global_id, owner_history, name, description, properties];
        WallType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type];
        SlabType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type];
        RoofType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type];
        ShadingDeviceType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type];
        DoorType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type, operation_type, parameter_takes_precedence, user_defined_partitioning_type];
        WindowType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type, partitioning_type, parameter_takes_precedence, user_defined_partitioning_type];
        SpaceType [global_id, owner_history, name, description, applicable_occurence, has_property_sets, representation_maps, tag, element_type, predefined_type, long_name];
        Project [global_id, owner_history, name, description, object_type, long_name, phase, representation_context, units_in_context];
        Site [global_id, owner_history, name, description, object_type, object_placement, representation, long_name, composition_type, ref_latitude, ref_longitude, ref_elevation, land_title_number, site_address];
        Building [global_id, owner_history, name, description, object_type, object_placement, representation, long_name, composition_type, elevation_of_ref_height, elevation_of_terrain, building_address];
        Storey [global_id, owner_history, name, description, object_type, object_placement, representation, long_name, composition_type, elevation];
        Space [global_id, owner_history, name, description, object_type, object_placement, representation, long_name, composition_type, predefined_type, elevation_with_flooring];
        Wall [global_id, owner_history, name, description, object_type, object_placement, representation, tag, predefined_type];
        Slab [global_id, owner_history, name, description, object_type, object_placement, representation, tag, predefined_type];
        Roof [global_id, owner_history, name, description, object_type, object_placement, representation, tag, predefined_type];
        ShadingDevice [global_id, owner_history, name, description, object_type, object_placement, representation, tag, predefined_type];
        OpeningElement [global_id, owner_history, name, description, object_type, object_placement, representation, tag, predefined_type];
        Door [global_id, owner_history, name, description, object_type, object_placement, representation, tag, overall_height, overall_width, predefined_type, operation_type, user_defining_operation_type];
        Window [global_id, owner_history, name, description, object_type, object_placement, representation, tag, overall_height, overall_width, predefined_type, partitioning_type, user_defining_partitioning_type];
        RelAggregates [global_id, owner_history, name, description, relating_object, related_objects];
        RelAssociatesMaterial [global_id, owner_history, name, description, related_objects, relating_material];
        RelContainedInSpatialStructure [global_id, owner_history, name, description, related_elements, relating_structure];
        RelDeclares [global_id, owner_history, name, description, relating_context, related_definitions];
        RelDefinesByType [global_id, owner_history, name, description, related_objects, relating_type];
        RelDefinesByProperties [global_id, owner_history, name, description, related_objects, relating_property_definition];
        RelVoidsElement [_, _, _, _, relating_building_element, related_opening_element];
        RelFillsElement [_, _, _, _, _, related_building_element];
    }
    if let Some(d) = any.downcast_ref::<Dummy>() {
        return Some(("Dummy", vec![Some(d.s.clone())]));
    }
    if let Some(p) = any.downcast_ref::<Point2D>() {
        let v = [p.x, p.y];
        return Some(("Point2D", vec![Some(format!("({:?},{:?})", v[0], v[1]))]));
    }
    if let Some(p) = any.downcast_ref::<Point3D>() {
        return Some(("Point3D", vec![Some(format!("({:?},{:?},{:?})", p.x, p.y, p.z))]));
    }
    if any.is::<Direction2D>() {
        return Some(("Direction2D", vec![None]));
    }
    if any.is::<Direction3D>() {
        return Some(("Direction3D", vec![None]));
    }
    None
}
