C = ["lightyear_core", "lightyear_utils", "lightyear_serde"]
T = C + ["lightyear_transport", "bytes"]
EXTRA_PATCH = ["no_std_io2", "indexmap"]
PROPS = {
 "c01": C + ["lightyear_transport", "serde", "bevy_reflect"],
 "c02": C,
 "c03": C + ["fixed", "bytes"],
 "c04": C,
 "s01": C + ["no_std_io2", "bytes", "bevy_ecs", "bevy_platform", "smallvec"],
 "s02": C + ["bytes", "bevy_ecs", "bevy_platform", "smallvec"],
 "k02": C + ["no_std_io2", "bytes", "lightyear_connection"],
 "k01": C + ["bevy_ecs", "bevy_platform", "bevy_reflect", "serde", "smallvec"],
 "l01": C + ["lightyear_link", "bytes", "bevy_reflect"],
 "n01": ["lightyear_utils"],
 "y01": C + ["bevy_ecs", "bevy_ecs/std", "lightyear_sync", "lightyear_link", "bevy_time", "fixed"], **{f"y{i:02}": C + ["bevy_ecs", "bevy_ecs/std", "lightyear_sync", "lightyear_link"] for i in (2, 3, 4)},
 "u01": C, "u02": C + ["lightyear_transport"],
 **{f"t{i:02}": T + ["lightyear_link", "bevy_time"] for i in range(1, 13)},
}
