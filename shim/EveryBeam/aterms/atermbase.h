#pragma once
namespace everybeam::aterms {
class ATermBase {};
}
