// stand-ins for what needs the patched librtmp
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
namespace sps {
PIAVInputFormat av_input_formats[] = {
    std::make_shared<FlvAVInputFormat>(), std::make_shared<TsAVInputFormat>(), nullptr };
PIAVOutputFormat av_output_formats[] = { std::make_shared<FlvAVOutputFormat>(), nullptr };
PIURLProtocolFactory sps_url_protocols[] = {
    std::make_shared<HttpURLProtocolFactory>(), std::make_shared<FileURLProtocolFactory>(), nullptr };
error_t RtmpModule::post_sub_module(PIModule sub) { return SUCCESS; }
error_t RtmpModule::merge(PIModule& module) { return SUCCESS; }
error_t RtmpModule::install() { return SUCCESS; }
}
