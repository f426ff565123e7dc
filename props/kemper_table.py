"""Addresses of the Kemper parameters (Kemper MIDI documentation): factory, name, set, request, response, type, depends on, class.
SX: product, device, function, instance, page, number. CC: control number."""
TABLE = [
    ('MAPPING_AMP_GAIN', 'Gain', ('SX', 2, 127, 1, 0, 10, 4), ('SX', 2, 127, 65, 0, 10, 4), ('SX', 2, 127, 1, 0, 10, 4), 0, None, 'ClientParameterMapping'),
    ('MAPPING_AMP_NAME', 'Amp Name', None, ('SX', 2, 127, 67, 0, 0, 16), ('SX', 2, 127, 3, 0, 0, 16), 1, 'Rig Date', 'ClientParameterMapping'),
    ('MAPPING_AMP_STATE', 'Amp State', ('SX', 2, 127, 1, 0, 10, 2), ('SX', 2, 127, 65, 0, 10, 2), ('SX', 2, 127, 1, 0, 10, 2), 0, None, 'ClientParameterMapping'),
    ('MAPPING_NEXT_BANK', 'Next Bank', ('CC', 48), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_PREVIOUS_BANK', 'Prev Bank', ('CC', 49), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_CABINET_NAME', 'Cab Name', None, ('SX', 2, 127, 67, 0, 0, 32), ('SX', 2, 127, 3, 0, 0, 32), 1, 'Rig Date', 'ClientParameterMapping'),
    ('MAPPING_CABINET_STATE', 'Cab State', ('SX', 2, 127, 1, 0, 12, 2), ('SX', 2, 127, 65, 0, 12, 2), ('SX', 2, 127, 1, 0, 12, 2), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX0', 'Mix A', ('SX', 2, 127, 1, 0, 50, 69), ('SX', 2, 127, 65, 0, 50, 69), ('SX', 2, 127, 1, 0, 50, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX1', 'Mix B', ('SX', 2, 127, 1, 0, 51, 69), ('SX', 2, 127, 65, 0, 51, 69), ('SX', 2, 127, 1, 0, 51, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX2', 'Mix C', ('SX', 2, 127, 1, 0, 52, 69), ('SX', 2, 127, 65, 0, 52, 69), ('SX', 2, 127, 1, 0, 52, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX3', 'Mix D', ('SX', 2, 127, 1, 0, 53, 69), ('SX', 2, 127, 65, 0, 53, 69), ('SX', 2, 127, 1, 0, 53, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX4', 'Mix X', ('SX', 2, 127, 1, 0, 56, 69), ('SX', 2, 127, 65, 0, 56, 69), ('SX', 2, 127, 1, 0, 56, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX5', 'Mix MOD', ('SX', 2, 127, 1, 0, 58, 69), ('SX', 2, 127, 65, 0, 58, 69), ('SX', 2, 127, 1, 0, 58, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX6', 'Mix DLY', ('SX', 2, 127, 1, 0, 60, 69), ('SX', 2, 127, 65, 0, 60, 69), ('SX', 2, 127, 1, 0, 60, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX7', 'Mix REV', ('SX', 2, 127, 1, 0, 61, 69), ('SX', 2, 127, 65, 0, 61, 69), ('SX', 2, 127, 1, 0, 61, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX8', 'Mix DLYns', ('SX', 2, 127, 1, 0, 60, 69), ('SX', 2, 127, 65, 0, 60, 69), ('SX', 2, 127, 1, 0, 60, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DLY_REV_MIX9', 'Mix REVns', ('SX', 2, 127, 1, 0, 61, 69), ('SX', 2, 127, 65, 0, 61, 69), ('SX', 2, 127, 1, 0, 61, 69), 0, None, 'ClientParameterMapping'),
    ('MAPPING_EFFECT_BUTTON1', 'Effect Button 1', ('CC', 75), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_EFFECT_BUTTON2', 'Effect Button 2', ('CC', 76), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_EFFECT_BUTTON3', 'Effect Button 3', ('CC', 77), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_EFFECT_BUTTON4', 'Effect Button 4', ('CC', 78), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_AIR', 'FixAir', ('SX', 2, 127, 1, 0, 5, 36), ('SX', 2, 127, 65, 0, 5, 36), ('SX', 2, 127, 1, 0, 5, 36), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_BOOST', 'FixBoost', ('SX', 2, 127, 1, 0, 5, 16), ('SX', 2, 127, 65, 0, 5, 16), ('SX', 2, 127, 1, 0, 5, 16), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_CHORUS', 'FixChor', ('SX', 2, 127, 1, 0, 5, 26), ('SX', 2, 127, 65, 0, 5, 26), ('SX', 2, 127, 1, 0, 5, 26), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_COMP', 'FixCompSt', ('SX', 2, 127, 1, 0, 5, 11), ('SX', 2, 127, 65, 0, 5, 11), ('SX', 2, 127, 1, 0, 5, 11), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_DBL_TRACKER', 'FixTracker', ('SX', 2, 127, 1, 0, 5, 41), ('SX', 2, 127, 65, 0, 5, 41), ('SX', 2, 127, 1, 0, 5, 41), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_GATE', 'FixGateSt', ('SX', 2, 127, 1, 0, 5, 6), ('SX', 2, 127, 65, 0, 5, 6), ('SX', 2, 127, 1, 0, 5, 6), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_TRANSPOSE', 'TranspSt', ('SX', 2, 127, 1, 0, 5, 1), ('SX', 2, 127, 65, 0, 5, 1), ('SX', 2, 127, 1, 0, 5, 1), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FIXED_WAH', 'FixWah', ('SX', 2, 127, 1, 0, 5, 21), ('SX', 2, 127, 65, 0, 5, 21), ('SX', 2, 127, 1, 0, 5, 21), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE0', 'Freeze A', ('SX', 2, 127, 1, 0, 125, 107), ('SX', 2, 127, 65, 0, 125, 107), ('SX', 2, 127, 1, 0, 125, 107), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE1', 'Freeze B', ('SX', 2, 127, 1, 0, 125, 108), ('SX', 2, 127, 65, 0, 125, 108), ('SX', 2, 127, 1, 0, 125, 108), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE2', 'Freeze C', ('SX', 2, 127, 1, 0, 125, 109), ('SX', 2, 127, 65, 0, 125, 109), ('SX', 2, 127, 1, 0, 125, 109), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE3', 'Freeze D', ('SX', 2, 127, 1, 0, 125, 110), ('SX', 2, 127, 65, 0, 125, 110), ('SX', 2, 127, 1, 0, 125, 110), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE4', 'Freeze X', ('SX', 2, 127, 1, 0, 125, 111), ('SX', 2, 127, 65, 0, 125, 111), ('SX', 2, 127, 1, 0, 125, 111), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE5', 'Freeze MOD', ('SX', 2, 127, 1, 0, 125, 113), ('SX', 2, 127, 65, 0, 125, 113), ('SX', 2, 127, 1, 0, 125, 113), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE6', 'Freeze DLY', ('SX', 2, 127, 1, 0, 125, 114), ('SX', 2, 127, 65, 0, 125, 114), ('SX', 2, 127, 1, 0, 125, 114), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE7', 'Freeze REV', ('SX', 2, 127, 1, 0, 125, 115), ('SX', 2, 127, 65, 0, 125, 115), ('SX', 2, 127, 1, 0, 125, 115), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE8', 'Freeze DLYns', ('SX', 2, 127, 1, 0, 125, 114), ('SX', 2, 127, 65, 0, 125, 114), ('SX', 2, 127, 1, 0, 125, 114), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE9', 'Freeze REVns', ('SX', 2, 127, 1, 0, 125, 115), ('SX', 2, 127, 65, 0, 125, 115), ('SX', 2, 127, 1, 0, 125, 115), 0, None, 'ClientParameterMapping'),
    ('MAPPING_FREEZE_ALL_GLOBAL', 'Freeze', ('CC', 35), None, ('CC', 35), 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_CANCEL', 'LoopCanc', ('SX', 2, 127, 1, 0, 125, 93), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_ERASE', 'LoopErase', ('SX', 2, 127, 1, 0, 125, 94), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_HALF_SPEED', 'Loop1/2', ('SX', 2, 127, 1, 0, 125, 92), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_REC_PLAY_OVERDUB', 'LoopRec', ('SX', 2, 127, 1, 0, 125, 88), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_REVERSE', 'LoopRev', ('SX', 2, 127, 1, 0, 125, 91), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_STOP', 'LoopStop', ('SX', 2, 127, 1, 0, 125, 89), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_LOOPER_TRIGGER', 'LoopTrig', ('SX', 2, 127, 1, 0, 125, 90), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_MORPH_BUTTON', 'Morph Button', ('CC', 80), ('SX', 2, 127, 65, 0, 0, 11), ('SX', 2, 127, 1, 0, 0, 11), 0, None, 'ClientParameterMapping'),
    ('MAPPING_MORPH_PEDAL', 'Morph', ('CC', 11), ('SX', 2, 127, 65, 0, 0, 11), ('SX', 2, 127, 1, 0, 0, 11), 0, None, 'ClientParameterMapping'),
    ('MAPPING_DELAY_FEEDBACK_PEDAL', 'Feed', ('CC', 69), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_DELAY_MIX_PEDAL', 'DlMix', ('CC', 68), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_PITCH_PEDAL', 'Pitch', ('CC', 4), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_REVERB_MIX_PEDAL', 'RvMix', ('CC', 70), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_REVERB_TIME_PEDAL', 'RvTime', ('CC', 71), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_VOLUME_OUTPUT_PEDAL', 'OutVol', ('CC', 73), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_VOLUME_PEDAL', 'Vol', ('CC', 7), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_WAH_PEDAL', 'Wah', ('CC', 1), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_RIG_COMMENT', 'Rig Comment', None, ('SX', 2, 127, 67, 0, 0, 4), ('SX', 2, 127, 3, 0, 0, 4), 1, 'Rig Date', 'ClientParameterMapping'),
    ('MAPPING_RIG_TRANSPOSE', 'RigTrans', ('SX', 2, 127, 1, 0, 4, 4), ('SX', 2, 127, 65, 0, 4, 4), ('SX', 2, 127, 1, 0, 4, 4), 0, None, 'ClientParameterMapping'),
    ('MAPPING_RIG_VOLUME', 'RigVol', ('SX', 2, 127, 1, 0, 4, 1), ('SX', 2, 127, 65, 0, 4, 1), ('SX', 2, 127, 1, 0, 4, 1), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED0', 'Rot. Speed A', ('SX', 2, 127, 1, 0, 50, 30), ('SX', 2, 127, 65, 0, 50, 30), ('SX', 2, 127, 1, 0, 50, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED1', 'Rot. Speed B', ('SX', 2, 127, 1, 0, 51, 30), ('SX', 2, 127, 65, 0, 51, 30), ('SX', 2, 127, 1, 0, 51, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED2', 'Rot. Speed C', ('SX', 2, 127, 1, 0, 52, 30), ('SX', 2, 127, 65, 0, 52, 30), ('SX', 2, 127, 1, 0, 52, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED3', 'Rot. Speed D', ('SX', 2, 127, 1, 0, 53, 30), ('SX', 2, 127, 65, 0, 53, 30), ('SX', 2, 127, 1, 0, 53, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED4', 'Rot. Speed X', ('SX', 2, 127, 1, 0, 56, 30), ('SX', 2, 127, 65, 0, 56, 30), ('SX', 2, 127, 1, 0, 56, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED5', 'Rot. Speed MOD', ('SX', 2, 127, 1, 0, 58, 30), ('SX', 2, 127, 65, 0, 58, 30), ('SX', 2, 127, 1, 0, 58, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED6', 'Rot. Speed DLY', ('SX', 2, 127, 1, 0, 60, 30), ('SX', 2, 127, 65, 0, 60, 30), ('SX', 2, 127, 1, 0, 60, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED7', 'Rot. Speed REV', ('SX', 2, 127, 1, 0, 61, 30), ('SX', 2, 127, 65, 0, 61, 30), ('SX', 2, 127, 1, 0, 61, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED8', 'Rot. Speed DLYns', ('SX', 2, 127, 1, 0, 60, 30), ('SX', 2, 127, 65, 0, 60, 30), ('SX', 2, 127, 1, 0, 60, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_ROTARY_SPEED9', 'Rot. Speed REVns', ('SX', 2, 127, 1, 0, 61, 30), ('SX', 2, 127, 65, 0, 61, 30), ('SX', 2, 127, 1, 0, 61, 30), 0, None, 'ClientParameterMapping'),
    ('MAPPING_BANK_SELECT', 'Select Bank', ('CC', 47), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_RIG_SELECT0', 'Select Rig 1', ('CC', 50), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_RIG_SELECT1', 'Select Rig 2', ('CC', 51), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_RIG_SELECT2', 'Select Rig 3', ('CC', 52), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_RIG_SELECT3', 'Select Rig 4', ('CC', 53), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_RIG_SELECT4', 'Select Rig 5', ('CC', 54), None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('MAPPING_LOOPER_VOLUME', 'LoopVol', ('SX', 2, 127, 1, 0, 127, 52), ('SX', 2, 127, 65, 0, 127, 52), ('SX', 2, 127, 1, 0, 127, 52), 0, None, 'ClientParameterMapping'),
    ('MAPPING_MAIN_VOLUME', 'MainVol', ('SX', 2, 127, 1, 0, 127, 0), ('SX', 2, 127, 65, 0, 127, 0), ('SX', 2, 127, 1, 0, 127, 0), 0, None, 'ClientParameterMapping'),
    ('MAPPING_MONITOR_VOLUME', 'MonVol', ('SX', 2, 127, 1, 0, 127, 2), ('SX', 2, 127, 65, 0, 127, 2), ('SX', 2, 127, 1, 0, 127, 2), 0, None, 'ClientParameterMapping'),
    ('MAPPING_SPACE_INTENSITY', 'SpaceInt', ('SX', 2, 127, 1, 0, 127, 36), ('SX', 2, 127, 65, 0, 127, 36), ('SX', 2, 127, 1, 0, 127, 36), 0, None, 'ClientParameterMapping'),
    ('MAPPING_TAP_TEMPO', 'Tap Tempo', ('CC', 30), None, None, 0, None, 'ClientParameterMapping'),
    ('MAPPING_TEMPO_DISPLAY', 'Tempo Pulse', None, None, ('SX', 2, 127, 1, 0, 124, 0), 0, None, 'ClientParameterMapping'),
    ('MAPPING_TEMPO_BPM', 'BPM', ('SX', 2, 127, 1, 0, 4, 0), ('SX', 2, 127, 65, 0, 4, 0), ('SX', 2, 127, 1, 0, 4, 0), 0, None, 'ClientParameterMapping'),
    ('BIDIRECTIONAL_SENSING', 'Sense', None, None, ('SX', 2, 127, 126, 0, 127), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE0', 'Slot State A', ('CC', 17), ('SX', 2, 127, 65, 0, 50, 3), ('SX', 2, 127, 1, 0, 50, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE1', 'Slot State B', ('CC', 18), ('SX', 2, 127, 65, 0, 51, 3), ('SX', 2, 127, 1, 0, 51, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE2', 'Slot State C', ('CC', 19), ('SX', 2, 127, 65, 0, 52, 3), ('SX', 2, 127, 1, 0, 52, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE3', 'Slot State D', ('CC', 20), ('SX', 2, 127, 65, 0, 53, 3), ('SX', 2, 127, 1, 0, 53, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE4', 'Slot State X', ('CC', 22), ('SX', 2, 127, 65, 0, 56, 3), ('SX', 2, 127, 1, 0, 56, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE5', 'Slot State MOD', ('CC', 24), ('SX', 2, 127, 65, 0, 58, 3), ('SX', 2, 127, 1, 0, 58, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE6', 'Slot State DLY', ('CC', 27), ('SX', 2, 127, 65, 0, 60, 3), ('SX', 2, 127, 1, 0, 60, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE7', 'Slot State REV', ('CC', 29), ('SX', 2, 127, 65, 0, 61, 3), ('SX', 2, 127, 1, 0, 61, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE8', 'Slot State DLYns', ('CC', 26), ('SX', 2, 127, 65, 0, 60, 3), ('SX', 2, 127, 1, 0, 60, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_STATE9', 'Slot State REVns', ('CC', 28), ('SX', 2, 127, 65, 0, 61, 3), ('SX', 2, 127, 1, 0, 61, 3), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE0', 'Slot Type A', None, ('SX', 2, 127, 65, 0, 50, 0), ('SX', 2, 127, 1, 0, 50, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE1', 'Slot Type B', None, ('SX', 2, 127, 65, 0, 51, 0), ('SX', 2, 127, 1, 0, 51, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE2', 'Slot Type C', None, ('SX', 2, 127, 65, 0, 52, 0), ('SX', 2, 127, 1, 0, 52, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE3', 'Slot Type D', None, ('SX', 2, 127, 65, 0, 53, 0), ('SX', 2, 127, 1, 0, 53, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE4', 'Slot Type X', None, ('SX', 2, 127, 65, 0, 56, 0), ('SX', 2, 127, 1, 0, 56, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE5', 'Slot Type MOD', None, ('SX', 2, 127, 65, 0, 58, 0), ('SX', 2, 127, 1, 0, 58, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE6', 'Slot Type DLY', None, ('SX', 2, 127, 65, 0, 60, 0), ('SX', 2, 127, 1, 0, 60, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE7', 'Slot Type REV', None, ('SX', 2, 127, 65, 0, 61, 0), ('SX', 2, 127, 1, 0, 61, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE8', 'Slot Type DLYns', None, ('SX', 2, 127, 65, 0, 60, 0), ('SX', 2, 127, 1, 0, 60, 0), 0, None, 'ClientParameterMapping'),
    ('EFFECT_TYPE9', 'Slot Type REVns', None, ('SX', 2, 127, 65, 0, 61, 0), ('SX', 2, 127, 1, 0, 61, 0), 0, None, 'ClientParameterMapping'),
    ('RIG_DATE', 'Rig Date', None, ('SX', 2, 127, 67, 0, 0, 3), ('SX', 2, 127, 3, 0, 0, 3), 1, None, 'ClientParameterMapping'),
    ('RIG_ID', 'Rig ID', None, None, [('CC', 32), ('PC',)], 0, None, 'ClientTwoPartParameterMapping'),
    ('RIG_NAME', 'Rig Name', None, ('SX', 2, 127, 67, 0, 0, 1), ('SX', 2, 127, 3, 0, 0, 1), 1, 'Rig Date', 'ClientParameterMapping'),
    ('TUNER_DEVIANCE', 'Tuner Deviance', None, None, ('SX', 2, 127, 1, 0, 124, 15), 0, None, 'ClientParameterMapping'),
    ('TUNER_MODE_STATE', 'Tuner Mode', ('CC', 31), None, ('SX', 2, 127, 1, 0, 127, 126), 0, None, 'ClientParameterMapping'),
    ('TUNER_NOTE', 'Tuner Note', None, None, ('SX', 2, 127, 1, 0, 125, 84), 0, None, 'ClientParameterMapping'),
]
