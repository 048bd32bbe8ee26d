// Stand-ins for install/sps_install_avformat.cpp, install/sps_install_url_protocols.cpp
// and module/rtmp: those need the patched librtmp of an empty submodule.
#pragma once
namespace sps {
PIAVInputFormat av_input_formats[] = {
    std::make_shared<FlvAVInputFormat>(), std::make_shared<TsAVInputFormat>(), nullptr };
PIAVOutputFormat av_output_formats[] = { std::make_shared<FlvAVOutputFormat>(), nullptr };
PIURLProtocolFactory sps_url_protocols[] = {
    std::make_shared<HttpURLProtocolFactory>(), std::make_shared<FileURLProtocolFactory>(), nullptr };
error_t RtmpModule::post_sub_module(PIModule sub) { return SUCCESS; }
error_t RtmpModule::merge(PIModule& module) { return SUCCESS; }
error_t RtmpModule::install() { return SUCCESS; }
}
