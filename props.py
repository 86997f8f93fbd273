"""The properties: text, anchors, the functions that carry them (cone) and the rules applied.

A cone is a list of patterns over qualified names without the package prefix; `!pattern`
removes.  It names the functions whose observable behaviour the property is made of.
"""

AU = 'auto_annotate_utils.'
FACTORY = AU + 'AbstractAnnotatePipelineFactory.'
TEI = 'structured_document.grobid_training_tei.'
SMA = 'annotation.simple_matching_annotator.'
CMA = 'core.annotation.matching_annotator.'
PKG = 'sciencebeam_trainer_grobid_tools/'

MODELS = ['header', 'segmentation', 'fulltext', 'reference', 'reference_segmenter', 'figure',
          'table', 'affiliation_address']
CLI = ['auto_annotate_%s.' % m for m in MODELS]

READ = [TEI + x for x in (
    '_iter_split_lower_to_upper_case', '_tokenize_text', '_to_text_token', '_node_to_tag_expression',
    'has_direct_text', '_iter_extract_lines_from_element',
    '_iter_extract_lines_from_container_elements', 'TeiText.*', 'TeiLine.*', 'TokenWriter.*',
    'LineBuffer.*', 'load_xml_root', 'load_grobid_training_tei_structured_document',
    'GrobidTrainingTeiStructuredDocument.__init__')]
WRITE = [TEI + x for x in (
    '_append_text', '_get_last_child_or_none', '_get_common_path', '_path_starts_with',
    '_get_element_at_path', '_split_path', '_get_tag_required_path', '_lines_to_tei',
    '_updated_tei_with_lines', '_parse_tag_expression', 'TagExpression.*', 'XmlTreeWriter.*',
    'save_grobid_training_tei_structured_document', 'GrobidTrainingTeiStructuredDocument.root',
    '_get_tag_attrib_name')]
DOC_API = [TEI + 'GrobidTrainingTeiStructuredDocument.*', 'structured_document.utils.*',
           'core.structured_document.*']
RUN = [FACTORY + x for x in (
    'run', 'run_local_pipeline', 'run_beam_pipeline', 'configure_beam_pipeline',
    'get_remaining_source_file_list', 'get_source_file_list', 'auto_annotate', '_auto_annotate')]
PATHS = [FACTORY + x for x in (
    'get_tei_xml_output_file_for_source_file', 'get_tei_xml_failed_output_file_for_source_file',
    'get_target_xml_for_source_file', 'get_final_source_url')]
FUZZY = ['utils.fuzzy.*']
CORE_FUZZY = ['core.annotation.fuzzy_match.*']
TARGETS = ['annotation.target_annotation.*', 'core.annotation.target_annotation.*']


EXTRA = {
    'A07': ['stable_iteration'],
    'A09': ['stable_iteration'],
    'A10': ['stable_iteration'],
    'A14': ['stable_iteration'],
    'A17': ['stable_iteration'],
    'A21': ['stable_iteration'],
    'A26': ['stable_iteration', 'loop_progress'],
    'A27': ['stable_iteration'],
    'A18': ['no_shared_state']}
for _i in range(1, 29):
    if _i not in (8, 13, 18):
        EXTRA.setdefault('A%02d' % _i, []).append('iterators_used_once')

IMPLEMENTED = {'deterministic_sources', 'resources_released', 'stable_iteration',
               'no_swallowed_errors', 'no_shared_state', 'shipped_configuration', 'loop_progress',
               'iterators_used_once'}


def P(id, title, statement, over, text, why, files, mechanism, cone, rules=(), observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=[PKG + f for f in files], mechanism=mechanism, cone=cone,
                rules=[r for r in list(rules) + EXTRA.get(id, []) if r in IMPLEMENTED], observe=list(observe))


PROPERTIES = [
    P('A01', 'Only documents passing the requested checks reach the output path',
      'An annotated document is saved under the output path if and only if it passes the requested '
      'quality checks. A document that fails them is saved only under the failed-output path when '
      'one is given, and is otherwise not saved at all.',
      ['inputs', 'configurations'],
      'every source document, target XML, set of checked fields, and with or without a failed '
      'output path',
      'The tests sample one passing and one failing document per tool; the claim is about every '
      'combination of verdict and configuration, in every tool that shares the pipeline.',
      ['annotation/annotator.py', 'auto_annotate_utils.py', 'auto_annotate_segmentation.py'],
      [{'name': 'verdict gates the two saves', 'where': 'annotate_structured_document'},
       {'name': 'verdict bound to the document\'s own target values', 'where': '_auto_annotate'}],
      ['annotation.annotator.annotate_structured_document',
       FACTORY + '_auto_annotate', FACTORY + 'auto_annotate', FACTORY + '__init__',
       FACTORY + 'is_structured_document_passing_checks',
       FACTORY + 'get_tei_xml_failed_output_file_for_source_file',
       FACTORY + 'get_tei_xml_output_file_for_source_file',
       'auto_annotate_*.AnnotatePipelineFactory.__init__',
       'auto_annotate_segmentation.AnnotatePipelineFactory.*',
       'auto_annotate_segmentation.is_segmentation_structured_document_passing_checks',
       'annotation.checks.get_target_annotations_from_annotator',
       'annotation.checks.is_structured_document_passing_checks',
       TEI + 'save_grobid_training_tei_structured_document'],
      [],
      ['files under the output path and the failed output path']),
    P('A02', 'The quality verdict is exactly the configured field checks',
      'A document passes if and only if every required field has a value in the target XML and '
      'every checked field that has one is tagged in the document with text that matches the value '
      'at least at the threshold; for segmentation the match is searched in the segment the field '
      'belongs to. With no checked fields every document passes, and a checked field with several '
      'or structured target values is an error, never a pass.',
      ['inputs', 'configurations'],
      'every tagged document, every list of target values, every choice of checked and required '
      'fields',
      'The tests check a few hand-made documents; the verdict must be the same function of tags, '
      'values and options for every document.',
      ['annotation/checks.py', 'auto_annotate_segmentation.py', 'utils/fuzzy.py'],
      [{'name': 'entity grouping', 'where': 'iter_structured_document_entities'},
       {'name': 'verdict', 'where': 'is_structured_document_passing_checks'},
       {'name': 'segment verdict', 'where': 'is_segmentation_structured_document_passing_checks'}],
      ['annotation.checks.*',
       'auto_annotate_segmentation.is_segmentation_structured_document_passing_checks',
       'auto_annotate_segmentation.AnnotatePipelineFactory.*',
       FACTORY + 'is_structured_document_passing_checks', FACTORY + '__init__',
       'annotation.segmentation_annotator.parse_segmentation_config',
       'auto_annotate_*.AnnotatePipelineFactory.__init__',
       AU + 'add_document_checks_arguments',
       TEI + 'GrobidTrainingTeiStructuredDocument.get_tag',
       TEI + 'GrobidTrainingTeiStructuredDocument.get_tokens_of_line',
       TEI + 'GrobidTrainingTeiStructuredDocument.get_lines_of_page',
       TEI + 'GrobidTrainingTeiStructuredDocument.get_pages',
       'core.structured_document.split_tag_prefix',
       'utils.fuzzy.fuzzy_search', 'utils.fuzzy.fuzzy_search_chunks'],
      ['no_swallowed_errors']),
    P('A03', 'A failed document never vanishes silently',
      'Every selected document is either processed or its failure is reported: unless errors are '
      'explicitly skipped, the first failure ends the run with an error that names the document, '
      'and with skipping enabled the failure is logged and the other documents are still '
      'processed. This holds for threads, processes and the pipeline runner, and for every tool '
      'that processes a list of files.',
      ['inputs', 'schedules', 'fault_sequences', 'configurations'],
      'every list of documents, any failing subset, any worker count and completion order',
      'Tests run one failing document in one mode; they cannot cover every failing position, worker '
      'count and completion order.',
      ['auto_annotate_utils.py', 'fix_jats_xml.py', 'download_source_files.py', 'utils/xml.py'],
      [{'name': 'handler re-raises unless skipping', 'where': '_auto_annotate'},
       {'name': 'every future is awaited', 'where': 'run_local_pipeline'}],
      RUN + ['fix_jats_xml.FixJatsProcessor.*', 'fix_jats_xml.run', 'fix_jats_xml.main',
             'fix_jats_xml.fix_jats_xml_file',
             'download_source_files.copy_file*', 'download_source_files.run',
             'download_source_files.main', 'download_source_files.mkdirs_if_not_exists',
             'auto_annotate_*.run', 'auto_annotate_*.main',
             'utils.xml.parse_xml*', 'utils.io.*', 'utils.xml._read_lines',
             'annotation.checks.get_target_annotations_from_annotator',
             'annotation.annotator.annotate_structured_document'],
      ['no_swallowed_errors'],
      ['exit of the command', 'log']),
    P('A04', 'Documents processed concurrently do not influence each other',
      'The result written for a document depends only on that document, its target XML and the '
      'options: it is the same whatever other documents are processed before, after or at the same '
      'time, with any number of workers. No state left by one document, including temporary files '
      'of its processing, is visible to or released by another.',
      ['schedules', 'inputs', 'histories'],
      'every set of documents, every interleaving of workers and every processing order',
      'Tests process one document at a time; interference needs particular interleavings.',
      ['auto_annotate_utils.py', 'auto_annotate_figure.py', 'auto_annotate_fulltext.py',
       'fix_jats_xml.py', 'utils/xml.py', 'annotation/simple_matching_annotator.py'],
      [{'name': 'one exit stack and one annotator per document', 'where': 'auto_annotate'},
       {'name': 'annotators keep no state between documents', 'where': 'annotate'}],
      [FACTORY + x for x in ('auto_annotate', '_auto_annotate', '__init__', 'get_annotator_config',
                             'get_final_source_url', 'run_local_pipeline')] + [
          'auto_annotate_*.AnnotatePipelineFactory.*', 'auto_annotate_*._get_annotator',
          AU + 'get_default_annotators', AU + 'AnnotatorConfig.*',
          'utils.xml.fix_source_file_to', 'utils.xml.get_fixed_source_url', 'utils.io.*',
          'utils.xml.auto_download_and_fix_input_file',
          'auto_annotate_figure.fix_source_file_to', 'auto_annotate_figure.get_fixed_source_url',
          'fix_jats_xml.FixJatsProcessor.*', 'fix_jats_xml.fix_jats_xml_file',
          'annotation.*Annotator.__init__', 'annotation.*Annotator.annotate',
          SMA + 'SimpleMatchingAnnotator._do_annotate',
          SMA + 'SimpleMatchingAnnotator.process_target_annotations',
          'annotation.matching_utils.PendingSequences.*',
          'core.annotation.annotator.*', CMA + 'MatchingAnnotator.annotate'],
      ['no_shared_state']),
    P('A05', 'Resume processes exactly the documents without an output file',
      'With resume, the run processes exactly the selected source documents whose own output file '
      'does not exist, in their original order; without resume it processes all of them. The file '
      'whose existence is tested is the one the run would write for that document.',
      ['inputs', 'histories', 'crash_points', 'configurations'],
      'every set of source documents and every set of outputs left by earlier or interrupted runs',
      'Tests use a single pre-existing output; the pairing of sources with existence flags must '
      'hold for any subset and order.',
      ['auto_annotate_utils.py'],
      [{'name': 'flags paired with sources', 'where': 'get_file_list_without_output_file'},
       {'name': 'same path function for test and write', 'where': 'get_remaining_source_file_list'}],
      [AU + 'get_file_list_without_output_file', FACTORY + 'get_remaining_source_file_list',
       FACTORY + 'get_source_file_list', FACTORY + 'run',
       FACTORY + 'get_tei_xml_output_file_for_source_file', FACTORY + '_auto_annotate',
       FACTORY + 'auto_annotate', FACTORY + 'run_local_pipeline', FACTORY + 'run_beam_pipeline',
       FACTORY + 'configure_beam_pipeline', FACTORY + '__init__',
       AU + 'add_annotation_pipeline_arguments', 'annotation.annotator.annotate_structured_document'],
      []),
    P('A06', 'Outputs are paired with their inputs and sources are never overwritten',
      'The result of a source document is written under the requested output path with that '
      'source\'s own (relative) file name and is annotated with the target XML derived from the '
      'same file name. No tool writes to a source or target input file.',
      ['inputs', 'configurations'],
      'every source path, target path, name pattern and output path',
      'Tests use one file per directory, where any pairing is the right one.',
      ['auto_annotate_utils.py', 'fix_jats_xml.py', 'utils/regex.py', 'annotation/annotator.py'],
      [{'name': 'output name from the source name', 'where': 'get_tei_xml_output_file_for_source_file'},
       {'name': 'target name from the source name', 'where': 'get_target_xml_for_source_file'},
       {'name': 'output differs from source', 'where': 'FixJatsProcessor.process_source_file'}],
      PATHS + [FACTORY + '_auto_annotate', FACTORY + 'auto_annotate', FACTORY + '__init__',
               FACTORY + 'get_source_file_list',
               'auto_annotate_*.AnnotatePipelineFactory.*', 'auto_annotate_*._get_annotator',
               AU + 'get_default_annotators',
               'utils.regex.*', 'fix_jats_xml.FixJatsProcessor.*', 'fix_jats_xml.fix_jats_xml_file',
               'annotation.annotator.annotate_structured_document',
               TEI + 'save_grobid_training_tei_structured_document',
               TEI + 'load_grobid_training_tei_structured_document', TEI + 'load_xml_root',
               'utils.xml.fix_source_file_to', 'utils.xml.get_fixed_source_url',
               'auto_annotate_figure.fix_source_file_to', 'auto_annotate_figure.get_fixed_source_url',
               AU + 'get_file_list_without_output_file'],
      []),
    P('A07', 'Annotating a document never loses, adds or reorders its text',
      'The text of the annotated document (characters in reading order, with line breaks and '
      'spaces) is the text of the source document\'s container, whatever tags the source has and '
      'whatever tags are assigned; only removing untagged text on request shortens it. This covers '
      'reading, splitting into tokens and writing back.',
      ['inputs', 'configurations'],
      'every source document tree and every assignment of tags to its tokens',
      'Tests compare a few fixed documents; conservation is a statement about all trees and all tag '
      'assignments.',
      ['structured_document/grobid_training_tei.py'],
      [{'name': 'reader visits text and tail of every node', 'where': '_iter_extract_lines_from_element'},
       {'name': 'tokeniser keeps whitespace', 'where': '_tokenize_text'},
       {'name': 'writer emits every token', 'where': '_lines_to_tei'}],
      READ + WRITE + [TEI + 'GrobidTrainingTeiStructuredDocument.remove_all_untagged',
                      TEI + 'GrobidTrainingTeiStructuredDocument.get_*',
                      'annotation.remove_untagged_annotator.*'],
      [],
      ['text content of the saved document']),
    P('A08', 'Annotators change tags only, and only on tokens of the document',
      'An annotator never changes a token\'s text, its whitespace, the order of tokens or lines, or '
      'the document tree; its only effect on the document is the tags it sets. The one exception is '
      'the requested removal of untagged content.',
      ['inputs', 'programs'],
      'every document and every pipeline of annotators',
      'Tests look at the tags they expect, not at everything an annotator might touch for all '
      'documents.',
      ['annotation/', 'core/annotation/', 'structured_document/grobid_training_tei.py'],
      [{'name': 'tags are set through the document', 'where': 'set_tag / set_sub_tag'}],
      ['annotation.*Annotator.*', 'annotation.reference_annotator.*',
       'annotation.segmentation_annotator.*', 'annotation.line_number_annotator.*',
       'annotation.annotator._map_token_tags', 'annotation.annotator._apply_preserved_fields',
       'annotation.annotator.annotate_structured_document_inplace',
       'core.structured_document.AbstractStructuredDocument.*',
       TEI + 'GrobidTrainingTeiStructuredDocument.*',
       CMA + '_apply_*', CMA + 'MatchingAnnotator.*', 'core.annotation.annotator.*'],
      []),
    P('A09', 'The first annotation of a token wins',
      'A token that already carries a tag when a target value is matched keeps that tag: matching '
      'only considers and only tags tokens that are still untagged, and a value matched to a place '
      'is not matched to the same place again. Sub tags are only set inside the range matched for '
      'their parent value.',
      ['inputs'],
      'every document, every list of target values and every overlap between them',
      'Overlaps between values are rare in the fixtures; the claim is for all of them.',
      ['annotation/simple_matching_annotator.py', 'annotation/matching_utils.py',
       'core/annotation/matching_annotator.py'],
      [{'name': 'untagged filter', 'where': 'update_annotation_for_index_range'},
       {'name': 'untagged sub sequences', 'where': 'untagged_sub_sequences'}],
      [SMA + 'SimpleMatchingAnnotator.*', SMA + 'get_extended_line_token_tags',
       SMA + 'to_*', SMA + 'get_merged*', SMA + 'SimpleSimpleMatchingConfig.*',
       SMA + 'select_index_ranges', SMA + 'merge_related_clusters', SMA + 'IndexRangeCluster.*',
       SMA + '*index_range*',
       'annotation.matching_utils.*', 'annotation.sub_tag_annotator.*',
       CMA + '*', 'core.structured_document.merge_token_tag']),
    P('A10', 'Begin and inside markers delimit exactly the matched values',
      'Each matched value starts with exactly one begin marker on its first token and continues '
      'with inside markers of the same tag; extending a value to whole lines or neighbouring tokens '
      'keeps one begin marker per value and never merges two values unless merging is configured. '
      'The same holds for sub tags.',
      ['inputs', 'configurations'],
      'every document, match position and sequence of matches',
      'Marker sequences are checked for single matches in tests; the claim is for all sequences.',
      ['annotation/simple_matching_annotator.py', 'annotation/reference_annotator.py',
       'core/structured_document/__init__.py', 'annotation/merge_group_tags_annotator.py'],
      [{'name': 'prefix by position', 'where': 'to_begin_inside_tags'},
       {'name': 'line extension', 'where': 'get_extended_line_token_tags'}],
      [SMA + 'to_*', SMA + 'get_merged_begin_inside_tags_of_same_tag_value',
       SMA + 'get_extended_line_token_tags', SMA + 'SimpleMatchingAnnotator.*',
       'annotation.reference_annotator.*', 'annotation.merge_group_tags_annotator.*',
       'annotation.replace_tags_annotator.*', 'annotation.expand_to_untagged_lines_annotator.*',
       'annotation.sub_tag_annotator.*',
       'core.structured_document.split_tag_prefix', 'core.structured_document.strip_tag_prefix',
       'core.structured_document.add_tag_prefix', 'core.structured_document.merge_token_tag',
       'core.structured_document.AbstractStructuredDocument.*',
       CMA + '_apply_*', 'annotation.segmentation_annotator._set_line_tokens_tag',
       'annotation.segmentation_annotator.SegmentationLine.*',
       TEI + 'GrobidTrainingTeiStructuredDocument.set_*']),
    P('A11', 'Every command line option has its documented effect',
      'Every option a tool accepts is read and reaches the component it configures, with the '
      'documented type and default, and every option a tool reads is accepted by its parser. '
      'Changing an option changes only what it documents.',
      ['configurations'],
      'every tool and every combination of its options',
      'Tests set a handful of options in a handful of combinations.',
      ['auto_annotate_utils.py', 'auto_annotate_header.py', 'auto_annotate_segmentation.py',
       'auto_annotate_fulltext.py', 'auto_annotate_reference.py',
       'auto_annotate_reference_segmenter.py', 'auto_annotate_figure.py', 'auto_annotate_table.py',
       'auto_annotate_affiliation_address.py', 'fix_jats_xml.py', 'download_source_files.py',
       'utils/string.py'],
      [{'name': 'parser', 'where': 'add_*_argument*, parse_args'},
       {'name': 'option to field', 'where': 'pipeline factory constructors'}],
      [AU + 'add_*', AU + 'process_*', AU + 'get_default_config_path', FACTORY + '__init__',
       FACTORY + 'get_annotator_config', AU + 'AnnotatorConfig.*', AU + 'get_match_detail_reporter',
       'utils.string.*', 'auto_annotate_*.add_main_args', 'auto_annotate_*.parse_args',
       'auto_annotate_*.AnnotatePipelineFactory.*', 'auto_annotate_*.main', 'auto_annotate_*.run',
       'auto_annotate_*._get_annotator',
       FACTORY + 'get_source_file_list', FACTORY + 'run', FACTORY + 'run_local_pipeline',
       'auto_annotate_reference._get_default_reference_annotator_config',
       'annotation.*Config.__init__',
       'fix_jats_xml.add_args', 'fix_jats_xml.parse_args', 'fix_jats_xml.main',
       'fix_jats_xml.FixJatsProcessor.__init__', 'fix_jats_xml.FixJatsProcessor.get_source_file_list',
       'download_source_files._add_*', 'download_source_files.add_main_args',
       'download_source_files.parse_args', 'download_source_files.get_*config',
       'download_source_files.run', 'download_source_files.main'],
      []),
    P('A12', 'Each tool applies exactly its stages, in order, with the configured values',
      'Each annotation tool runs line numbering (if enabled), target matching and then its own '
      'post-processing stages in its fixed order, and each optional stage runs exactly when its '
      'option asks for it. Every stage receives the threshold, look-ahead and stage options of '
      'this run, and the document each stage returns is what the next stage receives.',
      ['configurations', 'programs'],
      'every tool and every combination of the options that enable or parameterise stages',
      'Tests exercise default pipelines end to end on small documents where most stages have no '
      'visible effect.',
      ['auto_annotate_utils.py', 'auto_annotate_reference.py', 'auto_annotate_segmentation.py',
       'auto_annotate_affiliation_address.py', 'core/annotation/annotator.py'],
      [{'name': 'stage lists', 'where': '_get_annotator'},
       {'name': 'fold over annotators', 'where': 'Annotator.annotate'}],
      ['auto_annotate_*._get_annotator', 'auto_annotate_*.AnnotatePipelineFactory.*',
       AU + 'get_default_annotators', AU + 'AnnotatorConfig.*', AU + 'get_match_detail_reporter',
       FACTORY + '__init__', FACTORY + 'get_annotator_config', FACTORY + '_auto_annotate',
       'core.annotation.annotator.*', 'annotation.*Annotator.__init__', 'annotation.*Config.__init__',
       'auto_annotate_reference._get_default_reference_annotator_config',
       'auto_annotate_affiliation_address.*', CMA + 'get_*filter', CMA + 'MatchingAnnotatorConfig.*',
       SMA + 'SimpleSimpleMatchingConfig.*', SMA + 'SimpleMatchingAnnotator.__init__',
       SMA + 'SimpleMatchingAnnotator.annotate', SMA + 'SimpleMatchingAnnotator._do_annotate'],
      []),
    P('A13', 'Field names, tags and output elements agree across all tables',
      'Every field a tool annotates by default has a place in its output format and in the '
      'shipped mapping configuration, and every tag a stage assigns has an output element of its '
      'own; a tag without one is an explicit error, never silently dropped text. Two different tags '
      'are written to different elements.',
      ['configurations', 'programs'],
      'every tool, default field, sub field and tag its stages can assign',
      'Tests write a few tags each; the tables have to agree in all entries.',
      ['auto_annotate_header.py', 'auto_annotate_segmentation.py', 'auto_annotate_fulltext.py',
       'auto_annotate_reference.py', 'auto_annotate_reference_segmenter.py',
       'auto_annotate_figure.py', 'auto_annotate_table.py', 'auto_annotate_affiliation_address.py',
       'structured_document/grobid_training_tei.py'],
      [{'name': 'tag to element tables', 'where': '*_TAG_TO_TEI_PATH_MAPPING'},
       {'name': 'table look up', 'where': '_get_tag_required_path'}],
      [TEI + '_parse_tag_expression', TEI + '_get_tag_required_path', TEI + '_node_to_tag_expression',
       TEI + 'TagExpression.*', TEI + '_split_path', TEI + '_lines_to_tei',
       TEI + 'GrobidTrainingTeiStructuredDocument.__init__',
       TEI + 'load_grobid_training_tei_structured_document',
       AU + '_resolve_*', FACTORY + '__init__', 'auto_annotate_*.AnnotatePipelineFactory.__init__',
       'auto_annotate_*.add_main_args', 'auto_annotate_affiliation_address.*',
       'annotation.segmentation_annotator.parse_segmentation_config',
       'annotation.segmentation_annotator.get_segmentation_tag_name_by_tag_name',
       'annotation.segmentation_annotator._get_class_tag_names',
       'auto_annotate_*._get_annotator',
       'auto_annotate_reference._get_default_reference_annotator_config',
       'annotation.reference_annotator.ReferenceAnnotatorConfig.*',
       'annotation.reference_annotator._map_*', 'annotation.replace_tags_annotator.*',
       'annotation.merge_group_tags_annotator.*'],
      ['shipped_configuration']),
    P('A14', 'Fixing JATS references conserves their text',
      'Correcting the references of a JATS document never loses, adds or reorders text of a '
      'reference except the documented corrections (identifier and link clean-up, surrounding '
      'quotes and trailing comma of titles): moving an annotation boundary only moves characters '
      'between an element and its neighbours.',
      ['inputs'],
      'every reference element, with any nesting, tails and surrounding text',
      'Tests use references with text in the expected places; the claim is for every mixed-content '
      'reference.',
      ['fix_jats_xml.py'],
      [{'name': 'text moves to neighbours', 'where': 'change_annotation_to_matching_text'},
       {'name': 'split around new annotation', 'where': 'add_annotation_to_element_*'}],
      ['fix_jats_xml.*', '!fix_jats_xml.FixJatsProcessor.*', '!fix_jats_xml.parse_args',
       '!fix_jats_xml.add_args', '!fix_jats_xml.run', '!fix_jats_xml.main',
       '!fix_jats_xml.fix_jats_xml_file', '!fix_jats_xml.*meta_data*']),
    P('A15', 'JATS fixing touches only references and records what it changed',
      'Outside the reference entries the only change to a document is the recorded metadata; the '
      'recorded count and ids are those of exactly the references whose content changed, and the '
      'record says whether malformed XML had to be repaired. The output is well-formed XML in the '
      'encoding it declares.',
      ['inputs'],
      'every input document, with any number of changed and unchanged references',
      'Tests contain one or two references; the record must be right for any number and for '
      'malformed input.',
      ['fix_jats_xml.py', 'utils/xml.py'],
      [{'name': 'comparison with a copy of the original', 'where': 'iter_get_changed_original_references'},
       {'name': 'metadata', 'where': 'get_fix_xml_meta_data_dict'}],
      ['fix_jats_xml.fix_jats_xml_file', 'fix_jats_xml.fix_jats_xml_node', 'fix_jats_xml.fix_reference',
       'fix_jats_xml.*meta_data*', 'fix_jats_xml.iter_get_changed_original_references',
       'fix_jats_xml.clone_node', 'fix_jats_xml.with_element_tail',
       'fix_jats_xml.FixJatsProcessor.*', 'utils.xml.parse_xml', 'utils.xml.parse_xml_or_get_error_line',
       'utils.xml.get_fixed_xml_*', 'utils.io.*', 'utils.xml._read_lines', 'utils.xml.skip_spaces',
       'utils.xml.XMLSyntaxErrorWithErrorLine.*'],
      ['no_swallowed_errors']),
    P('A16', 'Downloaded document and target files stay paired',
      'Exactly the pairs whose document and target both exist are copied, each file to the output '
      'name derived from its own pair and its position among the copied pairs, with unchanged '
      'content; if no pair exists the run fails. A document is never paired with the target of '
      'another entry.',
      ['inputs', 'configurations', 'schedules'],
      'every pair of file lists, any subset of missing files, name patterns and thread count',
      'Tests use a single pair.',
      ['download_source_files.py'],
      [{'name': 'joint selection', 'where': 'filter_file_pair_exists'},
       {'name': 'output names by index', 'where': 'get_relative_output_file_list'}],
      ['download_source_files.*'],
      ['no_swallowed_errors']),
    P('A17', 'XML repair leaves valid documents unchanged and yields balanced XML otherwise',
      'A document that parses is used as it is. A document that does not parse is repaired to '
      'well-formed XML whose start and end tags balance and whose text and attribute values are '
      'those of the input with special characters escaped; if that is impossible the failure is '
      'reported with the offending line.',
      ['inputs'],
      'every byte sequence used as a source or target document',
      'Tests repair a few broken snippets.',
      ['utils/xml.py'],
      [{'name': 'parse first, repair on failure', 'where': 'parse_xml'},
       {'name': 'element stack', 'where': 'FixingHtmlParser'}],
      ['utils.xml.*', 'auto_annotate_figure.fix_source_file_to',
       'auto_annotate_figure.get_fixed_source_url',
       'auto_annotate_figure.AnnotatePipelineFactory.get_final_source_url',
       'auto_annotate_fulltext.AnnotatePipelineFactory.get_final_source_url'],
      ['no_swallowed_errors', 'resources_released']),
    P('A18', 'The same inputs and options always give the same output',
      'Running a tool twice on the same inputs with the same options writes the same documents '
      '(apart from the recorded run time of the JATS fixer): results do not depend on the order in '
      'which workers finish, on hash randomisation, the clock or the environment.',
      ['schedules', 'histories', 'inputs'],
      'every input, worker count and process environment',
      'A test runs once in one process; dependence on hash seed or completion order does not show.',
      ['auto_annotate_utils.py', 'annotation/', 'core/annotation/', 'utils/fuzzy.py',
       'fix_jats_xml.py'],
      [{'name': 'values derived from inputs only', 'where': 'all code reached from the tools'}],
      ['annotation.line_number_annotator.*', 'annotation.segmentation_annotator.*',
       'annotation.annotator.*', SMA + '*', TEI + '*', 'annotation.matching_utils.*',
       'core.structured_document.*', AU + 'get_*', 'utils.fuzzy.*', 'utils.regex.*', 'utils.misc.*',
       'utils.tei_xml.*'] + TARGETS,
      ['deterministic_sources']),
    P('A19', 'Saving changes only the annotated container of a fresh copy',
      'The saved document equals the source document except for the content of the annotated '
      'container: everything outside it, including the text that follows it, is carried over '
      'unchanged, and asking for the result repeatedly gives the same result and leaves the loaded '
      'source unchanged.',
      ['inputs', 'histories'],
      'every source document and every number of times the result is produced',
      'Tests look inside the container of small documents.',
      ['structured_document/grobid_training_tei.py'],
      [{'name': 'copy before rewriting', 'where': '_updated_tei_with_lines'}],
      WRITE + [TEI + 'GrobidTrainingTeiStructuredDocument.*', TEI + 'load_*',
               TEI + '_iter_extract_lines_from_container_elements'],
      []),
    P('A20', 'Existing tags are kept or dropped exactly as requested',
      'With tag preservation a token keeps its original tag unless it belongs to a field being '
      'annotated or is tagged anew; without it all original tags are dropped except those of the '
      'always-preserved fields. Preserving or dropping sub tags follows its own options '
      'independently.',
      ['inputs', 'configurations'],
      'every document, every combination of preservation options and fields',
      'Tests cover single options on single tokens.',
      ['annotation/annotator.py', 'structured_document/grobid_training_tei.py',
       'annotation/sub_tag_annotator.py', 'annotation/segmentation_annotator.py'],
      [{'name': 'tag mapping before annotation', 'where': 'annotate_structured_document_inplace'},
       {'name': 'preserved attributes', 'where': 'get_tag_or_preserved_tag'}],
      ['annotation.annotator.*', TEI + 'GrobidTrainingTeiStructuredDocument.*',
       TEI + '_get_tag_attrib_name', TEI + '_node_to_tag_expression', TEI + '_lines_to_tei',
       TEI + '_iter_extract_lines_from_element', TEI + 'TokenWriter.*',
       'annotation.sub_tag_annotator.*', 'annotation.segmentation_annotator.*',
       'auto_annotate_*.AnnotatePipelineFactory.__init__', FACTORY + '__init__',
       FACTORY + '_auto_annotate', 'core.structured_document.*', 'annotation.remove_untagged_annotator.*',
       'structured_document.utils.*']),
    P('A21', 'Target values are extracted from the target XML exactly as mapped',
      'For every mapped field the values to look for are those its configured expressions select '
      'in the target XML, in document order, with the configured sub fields, concatenations, '
      'ranges, patterns and exclusions applied and nothing else. Unmapped content never becomes a '
      'value.',
      ['inputs', 'configurations'],
      'every target XML and every mapping configuration',
      'Tests use one-element XML documents for each mapping feature in isolation.',
      ['annotation/target_annotation.py', 'core/annotation/target_annotation.py',
       'auto_annotate_utils.py'],
      [{'name': 'extraction', 'where': 'xml_root_to_target_annotations'}],
      TARGETS + ['utils.xml.get_xpath_*', 'utils.xml.get_first_*', 'utils.xml.iter_text_*',
                 'utils.tei_xml.*', AU + 'get_default_annotators', SMA + 'get_simple_tag_config*',
                 SMA + 'parse_*', SMA + 'SimpleTagConfig.*']),
    P('A22', 'The written element structure follows the assigned tags',
      'In the saved document each token is inside exactly the element path its tag (and sub tag) '
      'maps to, untagged text is outside any mapped element, consecutive tokens of one value share '
      'one element and a begin marker always starts a new element. Line breaks are written where '
      'the source has them.',
      ['inputs'],
      'every sequence of tags, sub tags, markers and line breaks',
      'Tests write short sequences; the claim is for every transition between tags.',
      ['structured_document/grobid_training_tei.py'],
      [{'name': 'path transitions', 'where': 'XmlTreeWriter.require_path*'},
       {'name': 'tag to path', 'where': '_get_tag_required_path'}],
      WRITE + READ + [TEI + 'GrobidTrainingTeiStructuredDocument.*', 'core.structured_document.*'],
      []),
    P('A23', 'Field selection and overrides restrict the mapping as requested',
      'Selecting fields or sub fields keeps exactly the mapping entries of those fields and sub '
      'fields, overrides replace exactly the given entries before selection, and without a '
      'selection every mapped field is used. Field lists with plus and minus modify the defaults '
      'in the order given.',
      ['configurations'],
      'every mapping file, field list, sub field list and override',
      'Tests use two or three entries.',
      ['auto_annotate_utils.py', 'utils/string.py', 'annotation/simple_matching_annotator.py'],
      [{'name': 'filter', 'where': 'get_filtered_xml_mapping_and_fields'},
       {'name': 'override', 'where': 'get_xml_mapping_with_overrides'}],
      [AU + 'get_mapping_key_field_name', AU + 'get_sub_field*', AU + 'is_key_selected*',
       AU + 'get_*xml_mapping*', 'utils.string.*', AU + 'add_fields_argument',
       AU + 'add_sub_fields_argument', 'auto_annotate_*.AnnotatePipelineFactory.*',
       SMA + 'get_simple_tag_config*', SMA + 'parse_*', SMA + 'SimpleTagConfig.*',
       SMA + 'SimpleSimpleMatchingConfig.*',
       'core.annotation.target_annotation.parse_xml_mapping',
       'core.annotation.target_annotation.get_sub_mapping',
       'core.annotation.target_annotation.get_prefixed_dict_values',
       'core.annotation.target_annotation.parse_json_with_default']),
    P('A24', 'Line numbers are recognised by their sequence, never by content alone',
      'A first token of a line is tagged as a line number only if it is a plain number that '
      'continues an ascending sequence within the allowed gap, and only on pages with enough such '
      'lines and a high enough ratio; no other token is tagged. The configured minimum count, gap '
      'and ratio are the ones applied.',
      ['inputs', 'configurations'],
      'every page layout and every configuration of count, gap and ratio',
      'Tests use short pages with fixed options.',
      ['annotation/line_number_annotator.py'],
      [{'name': 'candidate sequence', 'where': 'get_line_number_candidates'},
       {'name': 'page thresholds', 'where': 'iter_find_line_number_tokens_in_lines'}],
      ['annotation.line_number_annotator.*', FACTORY + '__init__', AU + 'get_default_annotators',
       AU + 'add_annotation_pipeline_arguments', AU + 'AnnotatorConfig.*']),
    P('A25', 'A reported match lies where the value occurs in the document',
      'Every index range reported for a value refers to the searched text itself: it lies within '
      'it, and the text in the range matches the value at least at the requested threshold; ranges '
      'of several chunks are reported in the coordinates of the whole text and tokens are tagged '
      'exactly when they lie in such a range. A value that occurs verbatim is found.',
      ['inputs'],
      'every text, value, threshold, junk definition and chunking',
      'Offsets are exercised with short strings; shifts appear for particular combinations of junk, '
      'chunk and stride.',
      ['utils/fuzzy.py', 'annotation/matching_utils.py', 'annotation/simple_matching_annotator.py',
       'core/annotation/fuzzy_match.py', 'core/annotation/matching_annotator.py'],
      [{'name': 'offset arithmetic', 'where': 'get_offset_matching_blocks, StringView'},
       {'name': 'tokens between', 'where': 'iter_tokens_between'}],
      FUZZY + CORE_FUZZY + ['annotation.matching_utils.*', SMA + '*', CMA + '*'],
      []),
    P('A26', 'Every document is processed in finite time',
      'Processing any document terminates: every loop makes progress towards its end on each '
      'iteration and recursion descends into strictly smaller parts. No input can make a tool hang.',
      ['inputs'],
      'every source document, target XML and option value',
      'A test that terminates says nothing about the inputs that are not sampled.',
      ['utils/fuzzy.py', 'annotation/', 'core/annotation/', 'fix_jats_xml.py', 'utils/xml.py',
       'structured_document/grobid_training_tei.py'],
      [{'name': 'advancing index', 'where': 'loops that are not driven by a finite collection'}],
      ['utils.fuzzy.default_is_junk', 'utils.fuzzy.*chunk*', 'utils.fuzzy.*stride*',
       'utils.fuzzy.iter_fuzzy_search_all*', 'utils.fuzzy.get_offset_matching_blocks',
       SMA + 'merge_related_clusters', SMA + 'SimpleMatchingAnnotator._do_annotate',
       SMA + 'SimpleMatchingAnnotator.process_target_annotations',
       SMA + 'SimpleMatchingAnnotator.iter_matching_index_ranges',
       SMA + 'IndexRangeCluster.*', 'annotation.matching_utils.PendingSequences.*',
       'annotation.target_annotation.contains_raw_text',
       CMA + 'skip_whitespaces', CMA + 'MatchingAnnotator.annotate',
       CMA + 'TargetAnnotationMatchFinder.*', CMA + 'SequenceWrapper.untagged_sub_sequences',
       'core.annotation.target_annotation.relace_recursive',
       'core.annotation.target_annotation.iter_flatten_if_nested',
       'core.annotation.target_annotation.extract_children*',
       TEI + '_iter_extract_lines_from_element', TEI + 'TokenWriter.*',
       'utils.xml.iter_text_content_and_exclude', 'utils.xml._read_lines', 'utils.xml.skip_spaces',
       'utils.xml.FixingHtmlParser.*'],
      []),
    P('A27', 'Post-processing stages retag only what they are meant to',
      'Expanding to neighbouring untagged lines, merging groups, replacing tags, reference '
      'clean-up and segmentation each retag exactly the tokens their rule names, based on the tags '
      'and text of the document, and leave every other token\'s tag as it was. Every stage hands on '
      'the document it was given.',
      ['inputs', 'configurations'],
      'every document, tag assignment and stage configuration',
      'Tests use minimal documents for one rule at a time.',
      ['annotation/expand_to_untagged_lines_annotator.py', 'annotation/merge_group_tags_annotator.py',
       'annotation/replace_tags_annotator.py', 'annotation/reference_annotator.py',
       'annotation/segmentation_annotator.py', 'annotation/remove_untagged_annotator.py',
       'annotation/sub_tag_annotator.py', 'auto_annotate_affiliation_address.py'],
      [{'name': 'stage rules', 'where': 'annotate methods of the post-processing annotators'}],
      ['annotation.expand_to_untagged_lines_annotator.*', 'annotation.merge_group_tags_annotator.*',
       'annotation.replace_tags_annotator.*', 'annotation.reference_annotator.*',
       'annotation.segmentation_annotator.*', 'annotation.remove_untagged_annotator.*',
       'annotation.sub_tag_annotator.*', 'auto_annotate_affiliation_address.*',
       'auto_annotate_reference._get_default_reference_annotator_config',
       TEI + 'GrobidTrainingTeiStructuredDocument.remove_all_untagged',
       'core.structured_document.split_tag_prefix', 'core.structured_document.strip_tag_prefix',
       'core.structured_document.add_tag_prefix', 'structured_document.utils.*'],
      []),
    P('A28', 'Temporary files and handles are released on every path',
      'Every temporary file, temporary directory, open file and worker pool a tool creates is '
      'released when the document (or the run) ends, also when processing fails (the optional match '
      'debug report stays open until the process ends). Temporary copies '
      'stay usable for as long as the document is being processed.',
      ['fault_sequences', 'inputs'],
      'every document and every point at which processing it can fail',
      'Tests do not look at leftovers, least of all after a failure at a particular point.',
      ['utils/io.py', 'utils/xml.py', 'auto_annotate_utils.py', 'auto_annotate_figure.py',
       'auto_annotate_fulltext.py', 'fix_jats_xml.py', 'download_source_files.py'],
      [{'name': 'scoped acquisition', 'where': 'with statements and exit stacks'}],
      ['utils.io.*', 'utils.xml.auto_download_and_fix_input_file', 'utils.xml.fix_source_file_to',
       'utils.xml.get_fixed_source_url', 'utils.xml.parse_xml', 'utils.xml._read_lines',
       'auto_annotate_figure.fix_source_file_to', 'auto_annotate_figure.get_fixed_source_url',
       'auto_annotate_*.AnnotatePipelineFactory.get_final_source_url',
       FACTORY + 'auto_annotate', FACTORY + '_auto_annotate', FACTORY + 'run_local_pipeline',
       FACTORY + 'run_beam_pipeline', 'fix_jats_xml.fix_jats_xml_file',
       'fix_jats_xml.FixJatsProcessor.run_local_pipeline', 'download_source_files.copy_file*',
       'download_source_files.run', TEI + 'load_*', CMA + 'CsvMatchDetailReporter.*',
       'core.annotation.target_annotation.parse_xml_mapping',
       'annotation.segmentation_annotator.parse_segmentation_config'],
      ['resources_released']),
]

BY_ID = {p['id']: p for p in PROPERTIES}


def NA(reason, **kw):
    d = P(cone=[], **kw)
    d['reason'] = reason
    return d


NOT_APPLICABLE = [
    NA('Whether fuzzy matching picks the place a human annotator would pick is a statistical '
       'statement about natural language documents; no static argument bounds it. The structural '
       'parts (ranges in the right coordinates, thresholds applied, first match wins) are A25, A12 '
       'and A09.',
       id='N01', title='Tagged text is what a human annotator would tag',
       statement='For real article PDFs and their publisher XML, the tokens tagged with a field are '
                 'those a human annotator would assign to that field.',
       over=['inputs'], text='every article',
       why='No test corpus settles it for unseen articles.',
       files=['annotation/simple_matching_annotator.py'], mechanism=[{'name': 'fuzzy matching', 'where': 'utils/fuzzy.py'}]),
    NA('Saving goes through a third party file system layer that creates and then writes the file; '
       'whether a crash between the two leaves a truncated file is decided by that layer and the '
       'store behind it, not by code in this repository.',
       id='N02', title='A crash never leaves a partial output file',
       statement='If the process is killed at any moment, every file under the output path is either '
                 'complete or absent.',
       over=['crash_points'], text='every point at which the process can be killed',
       why='Tests never kill the process.',
       files=['structured_document/grobid_training_tei.py', 'fix_jats_xml.py'],
       mechanism=[{'name': 'single write call', 'where': 'save_grobid_training_tei_structured_document'}]),
]
