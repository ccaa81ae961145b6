from aviary_ref.variable_info.enums import PhaseType, SpeedType

# Energy method
energy_phase_info = {
    'pre_mission': {'include_takeoff': False, 'optimize_mass': True},
    'climb': {
        'subsystem_options': {'aerodynamics': {'method': 'cruise', 'solve_alpha': True}},
        'user_options': {
            'num_segments': 5,
            'order': 3,
            'mach_optimize': True,
            'mach_initial': (0.17, 'unitless'),
            'mach_bounds': ((0.17, 0.478), 'unitless'),
            'altitude_optimize': True,
            'altitude_initial': (100.0, 'ft'),
            'altitude_bounds': ((100.0, 22_000.0), 'ft'),
            'no_descent': True,
            'mass_ref': (154000, 'lbm'),
            'throttle_enforcement': 'control',
            'time_initial_bounds': ((0.0, 0.0), 'min'),
            'time_duration_bounds': ((24.0, 128.0), 'min'),
        },
        'initial_guesses': {
            'altitude': ([100.0, 21_000.0], 'ft'),
            'mach': ([0.17, 0.475], 'unitless'),
        },
    },
    'cruise': {
        'subsystem_options': {'aerodynamics': {'method': 'cruise', 'solve_alpha': True}},
        'user_options': {
            'num_segments': 5,
            'order': 3,
            'mach_optimize': False,
            'mach_initial': (0.475, 'unitless'),
            'mach_bounds': ((0.47, 0.48), 'unitless'),
            'altitude_optimize': False,
            'altitude_initial': (21_000.0, 'ft'),
            'altitude_bounds': ((20_000.0, 22_000.0), 'ft'),
            'mass_ref': (154000, 'lbm'),
            'throttle_enforcement': 'control',
            'time_initial_bounds': ((24.0, 128.0), 'min'),
            'time_duration_bounds': ((56.5, 1000.0), 'min'),
        },
        'initial_guesses': {
            'altitude': ([21_000, 21_000.0], 'ft'),
            'mach': ([0.475, 0.475], 'unitless'),
        },
    },
    'descent': {
        'subsystem_options': {'aerodynamics': {'method': 'cruise', 'solve_alpha': True}},
        'user_options': {
            'num_segments': 5,
            'order': 3,
            'mach_optimize': True,
            'mach_initial': (0.475, 'unitless'),
            'mach_final': (0.2, 'unitless'),
            'mach_bounds': ((0.2, 0.48), 'unitless'),
            'altitude_optimize': True,
            'altitude_initial': (21_000.0, 'ft'),
            'altitude_final': (500.0, 'ft'),
            'altitude_bounds': ((0.0, 22_000.0), 'ft'),
            'mass_ref': (154000, 'lbm'),
            'no_climb': True,
            'throttle_enforcement': 'control',
            'time_initial_bounds': ((80, 1056.5), 'min'),
            'time_duration_bounds': ((29.0, 128.0), 'min'),
        },
    },
    'post_mission': {
        'include_landing': False,
        'constrain_range': True,
        'target_range': (2_020.0, 'nmi'),
    },
}

# 2DOF
two_dof_phase_info = {
    'groundroll': {
        'user_options': {
            'phase_type': PhaseType.TWO_DOF_TAKEOFF,
            'ground_roll': True,
            'num_segments': 1,
            'order': 3,
            'time_duration_ref': (50.0, 's'),
            'time_duration_bounds': ((1.0, 100.0), 's'),
            'velocity_initial': (0.066, 'kn'),
            'velocity_bounds': ((0, 1000), 'kn'),
            'velocity_ref': (150, 'kn'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_initial': (0.0, 'ft'),
            'distance_bounds': ((0, 10.0e3), 'ft'),
            'distance_ref': (3000, 'ft'),
            'distance_defect_ref': (3000, 'ft'),
        },
        'initial_guesses': {
            'time': ([0.0, 40.0], 's'),
            'velocity': ([0.066, 143.1], 'kn'),
            'distance': ([0.0, 1000.0], 'ft'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'rotation': {
        'user_options': {
            'phase_type': PhaseType.TWO_DOF_TAKEOFF,
            'rotation': True,
            'num_segments': 1,
            'order': 3,
            'time_duration_bounds': ((1, 100), 's'),
            'time_duration_ref': (50.0, 's'),
            'velocity_bounds': ((0, 1000), 'kn'),
            'velocity_ref': (100, 'kn'),
            'velocity_ref0': (0, 'kn'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((0, 10.0e3), 'ft'),
            'distance_ref': (5000, 'ft'),
            'distance_defect_ref': (5000, 'ft'),
            'angle_of_attack_initial': (0.0, 'deg'),
            'angle_of_attack_bounds': ((0.0, 20.0), 'deg'),
            'angle_of_attack_ref': (10.0, 'deg'),
            'angle_of_attack_defect_ref': (10.0, 'deg'),
            'normal_ref': (10000, 'lbf'),
        },
        'initial_guesses': {
            'time': ([40.0, 5.0], 's'),
            'angle_of_attack': ([0.0, 2.5], 'deg'),
            'velocity': ([143, 150.0], 'kn'),
            'distance': ([3680.37217765, 4000], 'ft'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'ascent': {
        'user_options': {
            'phase_type': PhaseType.TWO_DOF_TAKEOFF,
            'num_segments': 4,
            'order': 3,
            'velocity_bounds': ((0, 700), 'kn'),
            'velocity_ref': (200, 'kn'),
            'velocity_ref0': (0, 'kn'),
            'time_duration_ref': (10, 's'),
            'time_duration_bounds': ((5.0, 25.0), 's'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((0, 15_000), 'ft'),
            'distance_ref': (1e4, 'ft'),
            'distance_defect_ref': (1e4, 'ft'),
            'altitude_bounds': ((0.0, 700.0), 'ft'),
            'altitude_ref': (500, 'ft'),
            'altitude_defect_ref': (500, 'ft'),
            'altitude_final': (500, 'ft'),
            'altitude_constraint_ref': (500, 'ft'),
            'flight_path_angle_bounds': ((0.0, 20.0), 'rad'),
            'flight_path_angle_ref': (57.2958, 'deg'),
            'flight_path_angle_defect_ref': (57.2958, 'deg'),
            'flight_path_angle_initial': (0.0, 'deg'),
            'pitch_constraint_bounds': ((0.0, 15.0), 'deg'),
            'pitch_constraint_ref': (1.0, 'deg'),
        },
        'initial_guesses': {
            'time': ([45.0, 25.0], 's'),
            'flight_path_angle': ([0.0, 8.0], 'deg'),
            'angle_of_attack': ([2.5, 1.5], 'deg'),
            'velocity': ([150.0, 185.0], 'kn'),
            'distance': ([4.0e3, 10.0e3], 'ft'),
            'altitude': ([0.0, 500.0], 'ft'),
            'tau_gear': (0.2, 'unitless'),
            'tau_flaps': (0.9, 'unitless'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'accel': {
        'user_options': {
            'phase_type': PhaseType.ACCEL,
            'num_segments': 1,
            'order': 3,
            'alt': (500, 'ft'),
            'EAS_constraint_eq': (250, 'kn'),
            'time_duration_bounds': ((1, 200), 's'),
            'time_duration_ref': (1000, 's'),
            'velocity_bounds': ((150, 270), 'kn'),
            'velocity_ref': (250, 'kn'),
            'velocity_ref0': (150, 'kn'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((0, 150.0), 'NM'),
            'distance_ref': (5, 'NM'),
            'distance_defect_ref': (5, 'NM'),
        },
        'initial_guesses': {
            'time': ([70.0, 13.0], 's'),
            'velocity': ([185.0, 250.0], 'kn'),
            'distance': ([10.0e3, 20.0e3], 'ft'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'climb1': {
        'user_options': {
            'num_segments': 1,
            'order': 3,
            'EAS_target': (250, 'kn'),
            'mach_target': 0.475,
            'time_duration_bounds': ((30, 400), 's'),
            'time_duration_ref': (1000, 's'),
            'altitude_final': (10.0e3, 'ft'),
            'altitude_bounds': ((400.0, 11_000.0), 'ft'),
            'altitude_ref': (10.0e3, 'ft'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((0, 500.0), 'NM'),
            'distance_ref': (20, 'NM'),
            'distance_ref0': (0, 'NM'),
        },
        'initial_guesses': {
            'time': ([1.0, 2.0], 'min'),
            'distance': ([20.0e3, 100.0e3], 'ft'),
            'altitude': ([500.0, 10.0e3], 'ft'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'climb2': {
        'user_options': {
            'num_segments': 3,
            'order': 3,
            'EAS_target': (250, 'kn'),
            'mach_target': 0.475,
            'required_available_climb_rate': (0.1, 'ft/min'),
            'time_duration_bounds': ((200, 17_000), 's'),
            'time_duration_ref': (5000, 's'),
            'altitude_final': (21_000, 'ft'),
            'altitude_bounds': ((9000.0, 22_000.0), 'ft'),
            'altitude_ref': (22_000, 'ft'),
            'altitude_ref0': (0, 'ft'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((10.0, 100.0), 'NM'),
            'distance_ref': (100.0, 'NM'),
            'distance_defect_ref': (100.0, 'NM'),
        },
        'initial_guesses': {
            'time': ([216.0, 1300.0], 's'),
            'distance': ([100.0e3, 200.0e3], 'ft'),
            'altitude': ([10_000, 20_000], 'ft'),
            'throttle': ([0.956, 0.956], 'unitless'),
        },
    },
    'cruise': {
        'user_options': {
            'phase_type': PhaseType.SIMPLE_CRUISE,
            'num_segments': 1,
            'order': 3,
            'alt_cruise': (21_000, 'ft'),
            'mach_cruise': 0.475,
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'time_duration_bounds': ((0.0, 15.0), 'h'),
            'time_duration_ref': (8, 'h'),
        },
        'initial_guesses': {
            'mass': ([150_000.0, 115000], 'lbm'),
            'time': ([1516.0, 2100.0], 's'),
        },
    },
    'desc1': {
        'user_options': {
            'num_segments': 3,
            'order': 3,
            'EAS_target': (250, 'kn'),
            'mach_target': 0.475,
            'input_speed_type': SpeedType.MACH,
            'time_duration_bounds': ((300.0, 1800.0), 's'),
            'time_duration_ref': (1000, 's'),
            # 'altitude_initial': (21_000, 'ft'),
            'altitude_final': (10_000, 'ft'),
            'altitude_bounds': ((10000.0, 21_000.0), 'ft'),
            'altitude_ref': (20_000, 'ft'),
            'altitude_ref0': (0, 'ft'),
            'altitude_constraint_ref': (10000, 'ft'),
            'altitude_direct_link': False,
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (140_000, 'lbm'),
            'mass_ref0': (0, 'lbm'),
            'mass_defect_ref': (140_000, 'lbm'),
            'distance_bounds': ((1_000.0, 3_000.0), 'NM'),
            'distance_ref': (3200.0, 'NM'),
            'distance_ref0': (0, 'NM'),
            'distance_defect_ref': (100, 'NM'),
            'distance_direct_link': False,
        },
        'initial_guesses': {
            'mass': (136000.0, 'lbm'),
            'altitude': ([21_000, 10_000], 'ft'),
            'throttle': ([0.0, 0.0], 'unitless'),
            'distance': ([0.92 * 2_020, 0.96 * 2_020], 'NM'),
            'time': ([21000.0, 1000.0], 's'),
        },
    },
    'desc2': {
        'user_options': {
            'num_segments': 1,
            'order': 7,
            'EAS_target': (250, 'kn'),
            'mach_target': 0.475,
            'input_speed_type': SpeedType.EAS,
            'time_duration_bounds': ((100.0, 5000), 's'),
            'time_duration_ref': (500, 's'),
            'altitude_final': (1000, 'ft'),
            'altitude_bounds': ((1000.0, 10_000.0), 'ft'),
            'altitude_ref': (10.0e3, 'ft'),
            'altitude_ref0': (1000, 'ft'),
            'altitude_constraint_ref': (1000, 'ft'),
            'mass_bounds': ((0, None), 'lbm'),
            'mass_ref': (150_000, 'lbm'),
            'mass_defect_ref': (150_000, 'lbm'),
            'distance_bounds': ((0.0, 5000.0), 'NM'),
            'distance_ref': (3500, 'NM'),
            'distance_defect_ref': (100, 'NM'),
        },
        'initial_guesses': {
            'mass': (136000.0, 'lbm'),
            'altitude': ([10.0e3, 1.0e3], 'ft'),
            'throttle': ([0.0, 0.0], 'unitless'),
            'distance': ([0.96 * 2_020, 2_020], 'NM'),
            'time': ([22000.0, 500.0], 's'),
        },
    },
}
