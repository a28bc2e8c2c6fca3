//! Days of the year of lunar new year, Buddha's birthday and Chuseok, 1951-2050 (from the dataset of korean-lunar-calendar 1.0.0).
pub const LUNAR: [[u16; 3]; 100] = [
    [37, 133, 258], [27, 122, 277], [45, 140, 265], [35, 130, 254], [24, 149, 273],
    [43, 138, 263], [31, 127, 251], [50, 146, 270], [39, 135, 260], [28, 124, 279],
    [46, 142, 267], [36, 131, 256], [25, 121, 275], [44, 140, 264], [33, 128, 253],
    [22, 147, 272], [40, 136, 261], [30, 126, 280], [48, 143, 269], [37, 132, 258],
    [27, 122, 276], [46, 141, 266], [34, 130, 254], [23, 119, 273], [42, 138, 263],
    [31, 127, 252], [49, 145, 270], [38, 134, 260], [28, 123, 278], [47, 142, 267],
    [36, 131, 255], [25, 121, 274], [44, 140, 264], [33, 129, 254], [51, 147, 272],
    [40, 136, 261], [29, 125, 280], [49, 144, 269], [37, 132, 257], [27, 122, 276],
    [46, 141, 265], [35, 131, 255], [23, 148, 273], [41, 138, 263], [31, 127, 252],
    [50, 145, 271], [39, 134, 259], [28, 123, 278], [47, 142, 267], [36, 132, 256],
    [24, 121, 274], [43, 139, 264], [32, 128, 254], [22, 147, 272], [40, 135, 261],
    [29, 125, 279], [49, 144, 268], [38, 133, 258], [26, 122, 276], [45, 141, 265],
    [34, 130, 255], [23, 149, 274], [41, 137, 262], [31, 126, 251], [50, 145, 270],
    [39, 135, 259], [28, 123, 277], [47, 142, 267], [36, 132, 256], [25, 121, 275],
    [43, 139, 264], [32, 128, 253], [22, 147, 272], [41, 136, 261], [29, 125, 279],
    [48, 144, 268], [38, 133, 258], [27, 123, 277], [44, 140, 265], [34, 129, 255],
    [23, 148, 274], [42, 137, 263], [31, 126, 251], [50, 145, 270], [39, 135, 259],
    [28, 124, 278], [46, 142, 267], [35, 131, 256], [24, 120, 275], [43, 139, 265],
    [32, 127, 253], [22, 146, 271], [41, 136, 260], [30, 126, 279], [48, 144, 268],
    [37, 133, 258], [26, 122, 277], [45, 141, 266], [33, 129, 254], [23, 148, 273],
];
