"""Writes known_findings.json: the genuine defects that are listed and those that were repaired."""
import json
from pathlib import Path

P = r' \(as in the pinned release\)'
known = [
    ('M10', r'the metadata default takes the place of a declared parameter value \(1 for 2\.5, ext_fixed:setting\)', 'a parameter an external subsystem declares with a value takes the default of its metadata instead when that has one (declared 2.5 and default 1.0 for aircraft:ext_fixed:setting)'),
    ('P01', r'HamiltonStandard: d .*', 'HamiltonStandard declares a colouring with num_full_jacs=1: entries that are zero at the first linearization (a clamped table lookup) stay zero ever after, so its derivatives are wrong at nodes that leave the clamp'),
    ('P01', r'AtmosphereComp: d dsos_dh / d altitude' + P, 'AtmosphereComp supplies an approximate d(dsos_dh)/d(altitude): the derivative of the Akima fit of dsos_dh is not the slope of the value it returns'),
    ('P01', r'BWBWingVolume: d .* / d aircraft:landing_gear:main_gear_location' + P, 'BWBWingVolume with smooth_mass_discontinuities: the derivative to the main gear location drops the factor 6 of the smoothed gear bay width and its effect on the aspect ratio'),
    ('P01', r'BWBFurnishingMass: d .*' + P, 'BWBFurnishingMass with smooth_mass_discontinuities: derivative of the smoothed step'),
    ('P01', r'BWBDetailedWingBendingFact: d .*' + P, 'BWBDetailedWingBendingFact: derivatives to span, aspect ratios, thickness, strut and aeroelastic tailoring factors and to the BWB station distributions, away from the shipped BWB'),
    ('P01', r'(BWB)?LoadFactors: d aircraft:wing:ultimate_load_factor / d .*' + P, 'LoadFactors and BWBLoadFactors with smooth_mass_discontinuities: d(dive load factor)/d(lift curve slope) uses 50 instead of 25 and the derivative to the dive speed is not assigned'),
    ('P01', r'BodyTankCalculations: d (wingfuel_mass_min|max_extra_fuel_mass|aircraft:fuel:max_capacity_mass|aircraft:fuel:auxiliary_fuel_mass_capacity) / d .*' + P, 'BodyTankCalculations with smooth_mass_discontinuities: derivatives of the smoothed minimum wing fuel (uses the already smoothed value) and of the fuel capacity (1/100 instead of 1/110)'),
    ('P01', r'BWBWingPrelim: d aircraft:wing:aspect_ratio(_reference)? / d BWB_CHORD_PER_SEMISPAN_DISTRIBUTION' + P, 'BWBWingPrelim: derivatives of the aspect ratios to the chord distribution, away from the shipped BWB'),
    ('P01', r'BWBFuselageSize: d aircraft:fuselage:wetted_area / d aircraft:fuselage:pressurized_width_additional' + P, 'GASP BWBFuselageSize: derivative of the wetted area to the additional pressurized width'),
    ('P01', r'FurnishingMass: d aircraft:furnishings:mass / d aircraft:fuselage:avg_diameter' + P, 'GASP FurnishingMass: derivative to the fuselage diameter where the furnishings mass switches equation'),
    ('M04', r'reserve mission start: (mass|distance)', 'the first reserve phase is not linked to the regular mission (link_phases skips it), although the user guide says it starts at the mass and range where the last regular phase ended: its initial mass and distance are left free'),
    ('M01', r'aircraft:crew_and_payload:total_payload_mass ignores the given aircraft:crew_and_payload:passenger_payload_mass', 'GASP PayloadGroup computes the total payload from its own passenger payload, not from an overriding aircraft:crew_and_payload:passenger_payload_mass'),
    ('M01', r'aircraft:propulsion:total_engine_mass ignores the given aircraft:engine:mass', 'FLOPS EngineMass sums the engine masses it computed, not an overriding aircraft:engine:mass'),
    ('M01', r'aircraft:design:empty_mass ignores the given aircraft:design:systems_and_equipment_mass \(alternate mass equations\)', 'with use_alt_mass the empty mass is computed from SYSTEMS_AND_EQUIPMENT_MASS_BASE and ignores an overriding aircraft:design:systems_and_equipment_mass'),
    ('M02', r'given value is not the one reported: (mission:(takeoff|landing):(lift_coefficient_max|(lift|drag)_coefficient_flap_increment)|aircraft:design:lift_coefficient_max_flaps_up)', 'values given for the maximum lift coefficients and flap increments of the GASP flaps model are not used: its components compute them under aliased names, which override_aviary_vars does not see'),
    ('P03', r'HamiltonStandard: d .* depends on history', 'HamiltonStandard: entries of its derivatives that are zero at the first linearization stay zero ever after (colouring from one Jacobian)'),
    ('M03', r'idle point: thrust is the stated fraction of the second highest point, not of the maximum', 'generated idle points: the idle thrust fraction is taken of the second highest point of the condition, not of the maximum (pinned by test_engine_deck)'),
    ('M03', r'idle point: shp is the stated fraction of the second highest point, not of the maximum', 'generated idle points: the idle shaft power fraction is taken of the second highest point of the condition, not of the maximum (pinned by test_engine_deck)'),
    ('M03', r'idle point: the limits of a condition with fewer points than another are zero', 'generated idle points: a condition with fewer throttle points than another is padded with zeros which are taken as its maximum (pinned by test_engine_deck)'),
    ('D02', r'a value of a type the metadata does not allow is accepted: complex array', 'arrays of complex numbers are accepted for real variables: numpy drops the imaginary part with a warning'),
    ('D06', r'preprocessing twice: as-flown cargo of a sizing mission', 'GASP sizing missions with some of the cargo masses given: preprocessing keeps (or assumes no) as-flown cargo, preprocessing again sets it to the design cargo'),
    ('D07', r'an engine option is not that of its engine: None is stored as text', 'a data file option that one of several engine types lacks is stored as the text None'),
    ('D07', r'propulsion preprocessing twice changes the options: wing locations of several engine types are repeated', 'wing locations of several engine types are kept as one flat list: preprocessing again gives the whole list to every engine type without locations of its own'),
    ('M14', r'landing: the roll-out uses the friction of the takeoff', 'detailed landings take mission:takeoff:rolling_friction_coefficient and braking_friction_coefficient: the values given for mission:landing:* are ignored (with equal values, as shipped, this makes no difference; taking them would fail for vehicles that give only the takeoff values)'),
]
fixed = [
    ('D01', 'd0c0142', 'NamedValues.copy() shared its storage with the original'),
    ('D03', '281b434', 'numbers in scientific notation without a decimal point were read from decks as strings'),
    ('D06', '8c6a59c', 'custom metadata was not passed to preprocess_options'),
    ('D06', '3679ad5', 'add_aviary_group never raised its error on a single-mission problem'),
    ('M08', 'cdf4ef2', 'problem setup modified the caller\'s (or the default) phase_info, changing later problems'),
    ('M07', '63f82fa', 'off-design and payload-range runs modified the phase_info of the sized aircraft'),
    ('M06', '2491e30', 'an invalid time_duration raised a TypeError instead of its error message'),
    ('M07', '2f46a47', 'save_results replaced lists of enums and paths in the problem\'s aviary_inputs'),
    ('D04', '7f92346', 'data file reading and writing modified the caller\'s aliases and comments'),
    ('D07', '862d789', 'an engine left without a mount location when no other engine is wing-mounted was not counted'),
    ('P01', 'a510032', 'AeroGeom did not declare derivatives of SA7 to the drag factors and strut chord'),
    ('P01', 'bdabe69', 'derivatives of the GASP tail masses left out the tail mass scalers'),
    ('P01', 'cc85b40', 'BWB load path sweep derivatives were assigned to the wrong stations'),
    ('P01', 'cc74c40', 'main gear length derivatives with more than one wing location or unnormalized locations'),
    ('P01', 'c8e8f22', 'GASP surface control mass derivatives left out the mass scaler'),
    ('P01', '0d2bf92', 'derivatives of GASP load speeds (category 1) and smoothed load parameters'),
    ('P01', '401dadf', 'GASP pylon mass and wing mounted mass derivatives'),
    ('P01', 'd57a4cb', 'BWB fuselage mass derivatives left out the mass scaler'),
    ('P04', 'f29e554', 'smoothed GASP furnishings mass added the heavy aircraft equation for light aircraft'),
    ('P01', '5b48ebb', 'GASP landing gear mass derivatives'),
    ('P01', 'b2f71e4', 'starter mass derivatives with distributed or multiple engine types'),
    ('P01', '9bbf6e3', 'simple cruise distance declared its derivative to the initial distance at the first node only'),
    ('P03', 'bbb9682', 'PreHamiltonStandard overwrote its velocity input'),
    ('P01', '403146f', 'derivatives of UFac and of DragCoefClean to the drag factors'),
    ('P01', '52885cc', 'fuel system mass derivative ignored the distributed engine count factor'),
    ('P03', 'ddd64eb', 'canard characteristic length and fineness kept stale values when there is no canard'),
    ('P03', 'ea5779b', 'skin friction drag kept a stale Reynolds number derivative after laminar flow was switched off'),
    ('P08', 'b19a773', 'rate of true airspeed in the unsteady solved mission with equivalent airspeed, and its derivatives'),
    ('P01', '0ca3df6', 'BWB hydraulic diameter derivative to the aisle width'),
    ('P01', '0fce596', 'smoothed landing gear location coefficient derivative was 100 times too large'),
    ('P01', '5499537', 'GASP fuselage mass derivative to the acoustic treatment left out the mass scaler'),
    ('M04', 'e58a14d', 'with a single reserve phase the reserve fuel was 1 lbm minus the final mass: its initial mass was never connected'),
    ('M06', 'e3ff48d', 'the constraint_ref option of a state was ignored'),
    ('P01', 'd4d4667', 'nacelle diameter factor derivative with several engine types and at most four engines'),
    ('M05', '14ff43c', 'the hybrid objective added the final mass instead of subtracting it'),
    ('M05', '4a03836', 'composite objectives with separate weights, or of a single mission, could not be set up'),
    ('M03', 'd597e11', 'comparison of net thrust with gross thrust less ram drag used an inverted tolerance'),
    ('M03', 'bf63a6b', 'missing required engine deck variables were not reported'),
    ('M03', '0d1a34f', 'ignore_negative_thrust raised IndexError for decks that lack optional columns'),
    ('M03', 'aee47f9', 'the last Mach number and flight condition of a deck were left out of the counts'),
    ('M03', '58d6892', 'engine decks given in memory could not be built'),
    ('M03', '61aacc2', 'reading engine data from memory modified the given data'),
    ('M03', '7a866a4', 'engine decks reported an RPM of zero instead of the data'),
    ('M03', '5106ce1', 'hybrid throttle of maximum thrust was not used with local or global throttles'),
    ('M03', '8c13f7c', 'phase options given for an engine model did not reach its mission model'),
    ('M03', 'aff211d', 'options of an engine overrode those of engines whose name starts with its name'),
    ('D01', '55be06e', 'values of integer arrays were truncated when read in other units'),
    ('D05', '076411d', 'aircraft:battery:volume was declared in ft*3 instead of ft**3'),
    ('D02', 'f2173b3', 'integer inputs dropped the fractional part of the number given'),
    ('D02', 'cc9c6b3', 'numbers given in lists for boolean inputs were accepted'),
    ('P10', '3853082', 'sigmoid of a scalar multiplied the distance by mu instead of dividing; derivative failed for scalars'),
    ('P10', '619307a', 'smooth minimum of large values was infinite'),
    ('P09', 'd300639', 'temperature offset given to the atmosphere group was ignored'),
    ('P10', '08fee0d', 'lookup tables with connected training data raised KeyError unless dependent values were given too'),
    ('P10', '535a1e2 1a5926e', 'interpolators misread labelled outputs and columns in another order than inputs first'),
    ('D03', 'd550993', 'options derived from inputs given in other units compared the bare number'),
    ('D03', '9eca628', 'lists of enumerations were saved to csv in a form that could not be read'),
    ('D03', '8e2b56b', 'lists in brackets without units and text with special characters in vehicle files were misread'),
    ('D04', 'bba6ea1', 'units with parentheses and tabs in headers of data files were refused or became part of names'),
    ('D04', 'ff13db2', 'two columns of the same name shifted the columns that follow'),
    ('D04', '37b76a6', 'missing or surplus values in a row were skipped, shifting values to other columns'),
    ('D04', '08218c8', 'comments of several lines broke written data files, other than latin characters raised'),
    ('D04', '5d89e13', 'columns named input or output with units could not be read'),
    ('D06', 'e8b526f', 'GASP economy class counts were overwritten by the total number of passengers'),
    ('D06', 'c1e1979', 'fuel capacities that add up in other units were rejected because of rounding'),
    ('D06', '1f2dda6', 'tail mount preprocessing raised KeyError without a given aircraft type'),
    ('D07', '97372a0', 'wing locations given for some engine types only could not be preprocessed'),
    ('D07', '8bffdb1', 'additional engine mass fractions given for several engine types were repeated'),
    ('D07', 'b99f5ab', 'nacelle and pylon drag factors could not be given: preprocessing turned them into vectors, which are refused'),
    ('D08', '6ee3af2', 'converting a GASP deck with a gear ratio raised TypeError (and would have inverted the ratio twice)'),
    ('D08', '8fdd282', 'initial guesses of one converted GASP deck appeared in the decks converted after it'),
    ('D08', '71623b7', 'deck variables whose name is the beginning of an unused variable were dropped'),
    ('D08', '27dbe27', 'explicit units in a legacy deck were ignored'),
    ('D08', '8dd896f', 'Aviary names in a legacy deck ended up as unconverted'),
    ('D08', '9d401a4', 'KNAC, CLAPP, FACT and technology factors were only used in one spelling although names are not case-sensitive'),
    ('D08', '3d5cf71', 'empty lines of a FLOPS engine deck became points of zero thrust, comments between points raised'),
    ('D08', 'd1efc1b', 'one map with few Mach numbers lowered the interpolation order of all maps after it'),
    ('D08', '588ae9a', 'comments of FLOPS aero tables were lost (and used as output names)'),
    ('D08', '7701e66', 'FLOPS aero tables without an output file raised TypeError'),
    ('D08', '457174f', 'empty lines in GASP aero tables raised'),
    ('D08', '9b89377', 'FLOPS decks without tail sweep or aspect ratio raised AttributeError'),
    ('M07', '8681077', 'payload-range analysis raised KeyError for missions without a phase named cruise'),
    ('M07', 'f4eb901', 'payload-range analysis raised when full tanks exceed the gross mass'),
    ('M07', '312fc90', 'off-design missions ignored the iteration limit of SLSQP'),
    ('M07', '0415fe6', 'the total passenger count requested for an off-design mission was ignored'),
    ('M07', '5496d1a', 'the gross mass of the mission was saved as the design gross mass'),
    ('M07', '67b21ae', 'the problem configurator given for an off-design mission was ignored'),
    ('M07', 'b8d3401', 'off-design missions dropped the external subsystems of the sized aircraft'),
    ('M07', '31b9482', 'reloaded problems did not know the custom metadata given to read them'),
    ('M07', '03edab9', 'payload-range analysis raised KeyError for aircraft without wing or miscellaneous cargo'),
    ('M08', 'ca7f7c1', 'payload-range analysis ran for unconverged problems depending on verbosity'),
    ('M08', '2fa1f65', 'alternate furnishings mass used structure and propulsion masses of the previous run'),
    ('M12', '7e3fdff', 'missions with more than two engine types (fixed or static throttles, engine outputs of pre-mission) could not be set up'),
    ('M12', '9bf2408', 'mass report showed the mass of the first engine type for every engine type'),
    ('M12', 'd8e7bc0', 'input report of several missions listed inputs that were specified as unspecified'),
    ('M12', 'a56d7d5', 'input report stated local values in other units than it named'),
    ('M12', '78c7480', 'override report named the overridden output as the overriding one'),
    ('M12', '924eb72', 'engine report stated thrust and scale factor of before the mission ran'),
    ('M12', '68f447f', 'timeseries file flattened variables with several elements into one misaligned column'),
    ('M13', '34d6f94', 'verbose runs raised FileNotFoundError when reports are not active'),
    ('M15', '18d3895', 'files of drawn missions contained np.float64(...) and could not be loaded'),
    ('M15', '3807ea5', 'drawn phases shorter than four minutes in hours got a lower duration bound above the upper one'),
    ('M15', 'fb74509', 'drawn missions that do not start at time zero got initial time bounds of zero'),
    ('M15', '6440e05', 'deleting the first point of a drawn mission left the orders of the phases shifted'),
    ('M16', 'b15f452', 'dashboard table of variables named a variable without siblings by its first part only'),
    ('M16', '33e4f8d', 'dashboard optimization history showed the norm of scalar quantities: negative objectives, constraints and variables lost their sign'),
]
out = {
    'known': [{'property': p, 'pattern': r, 'what': w} for p, r, w in known],
    'fixed': [f'fixed: property={p} {h} {w}' for p, h, w in fixed],
}
(Path(__file__).resolve().parent.parent / 'known_findings.json').write_text(json.dumps(out, indent=1) + '\n')
