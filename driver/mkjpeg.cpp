// mkjpeg FILE W H MODE FIELD < 3 * n numbers: a picture of plain fields of FIELD x FIELD pixels, four in a row, channel by channel (blue, green, red)
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <jpeglib.h>

int main(int argc, char **argv) {
    if (argc != 6) return 2;
    int w = atoi(argv[2]), h = atoi(argv[3]), fs = atoi(argv[5]); bool grey = std::string(argv[4]) == "grey";
    std::vector<int> v; for (int x; scanf("%d", &x) == 1;) v.push_back(x);
    if (v.size() != 48) return 2;
    FILE *f = fopen(argv[1], "wb"); if (!f) return 2;
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c, f);
    c.image_width = w; c.image_height = h; int n = c.input_components = grey ? 1 : 3; c.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c); if (!grey) jpeg_set_colorspace(&c, JCS_RGB);
    for (int i = 0; i < n; i++) { c.comp_info[i].h_samp_factor = 1; c.comp_info[i].v_samp_factor = 1; }
    jpeg_set_quality(&c, 100, TRUE); jpeg_start_compress(&c, TRUE);
    std::vector<JSAMPLE> row(w * n);
    for (int y = 0; y < h; y++) {
        for (int x = 0; x < w; x++) for (int k = 0; k < n; k++) row[x * n + k] = (JSAMPLE) v[(grey ? 0 : 2 - k) * 16 + (y / fs % 4) * 4 + x / fs % 4];
        JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f);
    return 0;
}
