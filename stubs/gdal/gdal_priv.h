// In-process stand-in for the part of GDAL the grids use.  Raster files are
// written to disk in a trivial format so that the file round trips are real.
#ifndef VSTUB_GDAL_PRIV_H
#define VSTUB_GDAL_PRIV_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <fstream>
#include <string>
#include <vector>
typedef enum { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7 } GDALDataType;
typedef enum { GA_ReadOnly = 0, GA_Update = 1 } GDALAccess;
typedef enum { GF_Read = 0, GF_Write = 1 } GDALRWFlag;
typedef enum { CE_None = 0, CE_Debug = 1, CE_Warning = 2, CE_Failure = 3, CE_Fatal = 4 } CPLErr;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
inline void CPLFree(void* p) { free(p); }
inline int vstub_gdal_size(GDALDataType t) {
    switch (t) { case GDT_Byte: return 1; case GDT_UInt16: case GDT_Int16: return 2;
        case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4; case GDT_Float64: return 8; default: return 0; }
}
inline double vstub_gdal_get(void const* p, GDALDataType t) {
    switch (t) {
        case GDT_Byte: { uint8_t v; memcpy(&v, p, 1); return v; }
        case GDT_UInt16: { uint16_t v; memcpy(&v, p, 2); return v; }
        case GDT_Int16: { int16_t v; memcpy(&v, p, 2); return v; }
        case GDT_UInt32: { uint32_t v; memcpy(&v, p, 4); return v; }
        case GDT_Int32: { int32_t v; memcpy(&v, p, 4); return v; }
        case GDT_Float32: { float v; memcpy(&v, p, 4); return v; }
        case GDT_Float64: { double v; memcpy(&v, p, 8); return v; }
        default: return 0; }
}
inline void vstub_gdal_put(void* p, GDALDataType t, double d) {
    switch (t) {
        case GDT_Byte: { uint8_t v = d; memcpy(p, &v, 1); break; }
        case GDT_UInt16: { uint16_t v = d; memcpy(p, &v, 2); break; }
        case GDT_Int16: { int16_t v = d; memcpy(p, &v, 2); break; }
        case GDT_UInt32: { uint32_t v = d; memcpy(p, &v, 4); break; }
        case GDT_Int32: { int32_t v = d; memcpy(p, &v, 4); break; }
        case GDT_Float32: { float v = d; memcpy(p, &v, 4); break; }
        case GDT_Float64: memcpy(p, &d, 8); break;
        default: break; }
}
class GDALDataset;
class GDALRasterBand {
public:
    GDALDataType type; int sx, sy; int has_nodata; double nodata; std::vector<char> data;
    GDALRasterBand() : type(GDT_Unknown), sx(0), sy(0), has_nodata(0), nodata(0) {}
    GDALDataType GetRasterDataType() { return type; }
    int GetXSize() { return sx; } int GetYSize() { return sy; }
    double GetNoDataValue(int* ok = 0) { if (ok) *ok = has_nodata; return nodata; }
    CPLErr SetNoDataValue(double v) { nodata = v; has_nodata = 1; return CE_None; }
    CPLErr SetDescription(char const*) { return CE_None; }
    CPLErr RasterIO(GDALRWFlag f, int x0, int y0, int xs, int ys, void* buf, int bxs, int bys, GDALDataType bt, int64_t pixsp, int64_t linesp) {
        if (x0 < 0 || y0 < 0 || x0 + xs > sx || y0 + ys > sy || bxs != xs || bys != ys) return CE_Failure;
        if (!pixsp) pixsp = vstub_gdal_size(bt);
        if (!linesp) linesp = pixsp * bxs;
        int es = vstub_gdal_size(type);
        for (int y = 0; y < ys; ++y) for (int x = 0; x < xs; ++x) {
            char* c = data.data() + (size_t(y0 + y) * sx + x0 + x) * es;
            char* b = static_cast<char*>(buf) + y * linesp + x * pixsp;
            if (f == GF_Write) { if (bt == type) memcpy(c, b, es); else vstub_gdal_put(c, type, vstub_gdal_get(b, bt)); }
            else { if (bt == type) memcpy(b, c, es); else vstub_gdal_put(b, bt, vstub_gdal_get(c, type)); }
        }
        return CE_None;
    }
};
class GDALDataset {
public:
    std::string path; bool writable; int sx, sy; bool has_gt; double gt[6]; std::vector<GDALRasterBand> bands;
    GDALDataset() : writable(false), sx(0), sy(0), has_gt(false) { memset(gt, 0, sizeof gt); gt[1] = 1; gt[5] = 1; }
    int GetRasterXSize() { return sx; } int GetRasterYSize() { return sy; } int GetRasterCount() { return bands.size(); }
    GDALRasterBand* GetRasterBand(int i) { return (i < 1 || i > (int)bands.size()) ? 0 : &bands[i - 1]; }
    CPLErr GetGeoTransform(double* d) { if (!has_gt) return CE_Failure; memcpy(d, gt, sizeof gt); return CE_None; }
    CPLErr SetGeoTransform(double* d) { memcpy(gt, d, sizeof gt); has_gt = true; return CE_None; }
    CPLErr SetProjection(char const*) { return CE_None; }
    char const* GetProjectionRef() { return ""; }
    bool save() {
        std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc);
        if (!f) return false;
        int32_t h[5] = { 0x56475354, sx, sy, (int32_t)bands.size(), has_gt };
        f.write((char*)h, sizeof h); f.write((char*)gt, sizeof gt);
        for (size_t i = 0; i < bands.size(); ++i) { int32_t b[2] = { bands[i].type, bands[i].has_nodata };
            f.write((char*)b, sizeof b); f.write((char*)&bands[i].nodata, 8); f.write(bands[i].data.data(), bands[i].data.size()); }
        return (bool)f;
    }
    bool load() {
        std::ifstream f(path.c_str(), std::ios::binary);
        int32_t h[5];
        if (!f.read((char*)h, sizeof h) || h[0] != 0x56475354) return false;
        sx = h[1]; sy = h[2]; has_gt = h[4]; bands.resize(h[3]);
        if (!f.read((char*)gt, sizeof gt)) return false;
        for (int i = 0; i < h[3]; ++i) { int32_t b[2]; f.read((char*)b, sizeof b); bands[i].type = GDALDataType(b[0]); bands[i].has_nodata = b[1];
            bands[i].sx = sx; bands[i].sy = sy; f.read((char*)&bands[i].nodata, 8);
            bands[i].data.resize(size_t(sx) * sy * vstub_gdal_size(bands[i].type)); f.read(bands[i].data.data(), bands[i].data.size()); }
        return (bool)f;
    }
};
typedef void* GDALDatasetH;
class GDALDriver {
public:
    GDALDataset* Create(char const* p, int sx, int sy, int nb, GDALDataType t, char** = 0) {
        if (sx < 1 || sy < 1) return 0;
        std::ofstream probe(p, std::ios::binary | std::ios::trunc); if (!probe) return 0;
        GDALDataset* d = new GDALDataset(); d->path = p; d->writable = true; d->sx = sx; d->sy = sy; d->bands.resize(nb);
        for (int i = 0; i < nb; ++i) { d->bands[i].type = t; d->bands[i].sx = sx; d->bands[i].sy = sy; d->bands[i].data.assign(size_t(sx) * sy * vstub_gdal_size(t), 0); }
        return d;
    }
};
class GDALDriverManager { public: GDALDriver* GetDriverByName(char const*) { static GDALDriver d; return &d; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline void* GDALOpen(char const* p, GDALAccess) { GDALDataset* d = new GDALDataset(); d->path = p; if (!d->load()) { delete d; return 0; } return d; }
inline void GDALClose(void* h) { GDALDataset* d = static_cast<GDALDataset*>(h); if (d->writable) d->save(); delete d; }
#endif
